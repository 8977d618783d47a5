/*!
# Concrete search and replay against the real code.

`fyi_search <property> [--budget SECS]`; seed from VERIF_SEED, tier from
VERIF_TIER. The last line of stdout is a JSON report; exit code 0 (nothing
found), 1 (a failing input was found; it is in the report), 2 (unusable).
*/
#![allow(clippy::all, unused)]

mod oracle;
mod rt;
mod p_text;
mod p_prog;
mod p_cli;
#[cfg(feature = "sig")]
mod p_sig;

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let prop = args.get(1).cloned().unwrap_or_default();
	// Child modes used by the prompt and terminal checks.
	if prop == "__prompt" { p_cli::prompt_child(&args[2..]); return; }

	#[cfg(feature = "sig")]
	if prop == "__signal" { p_sig::child(&args[2..]); return; }

	let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
	let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
	let budget = args.iter().position(|a| a == "--budget").and_then(|p| args.get(p + 1)).and_then(|s| s.parse().ok())
		.unwrap_or(if thorough { 240.0 } else { 20.0 });
	if std::env::var_os("VX_BACKTRACE").is_none() { std::panic::set_hook(Box::new(|_| {})); }

	let mut c = rt::Ctx::new(&prop, seed, thorough, budget);
	match prop.as_str() {
		"C01" => p_text::c01(&mut c),
		"C02" => p_text::c02(&mut c),
		"C03" => p_text::c03(&mut c),
		"C04" => p_text::c04(&mut c),
		"C05" => p_text::c05(&mut c),
		"C06" => p_text::c06(&mut c),
		"C12" => p_text::c12(&mut c),
		"C17" => p_text::c17(&mut c),
		"C18" => p_text::c18(&mut c),
		"C07" => p_prog::c07(&mut c),
		"C08" => p_prog::c08(&mut c),
		"C09" => p_prog::c09(&mut c),
		"C10" => p_prog::c10(&mut c),
		"C11" => p_prog::c11(&mut c),
		"C13" => p_prog::c13(&mut c),
		"C19" => p_prog::c19(&mut c),
		"C21" => p_prog::c21(&mut c),
		"C23" => p_prog::c23(&mut c),
		"C14" => p_cli::c14(&mut c),
		"C15" => p_cli::c15(&mut c),
		"C16" => p_cli::c16(&mut c),
		#[cfg(feature = "sig")]
		"C22" => p_sig::c22(&mut c),
		"DEPS" => p_text::deps(&mut c),
		_ => { eprintln!("unknown property {prop}"); std::process::exit(2); },
	}
	c.finish();
}
