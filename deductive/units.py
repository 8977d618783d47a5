"""The verification units: a plan (contracts/NAME.vx), the source configuration it reads,
and the units that verify the bodies of what it includes (`uses`: contract only here)."""
UNITS = [
    {"name": "ansi", "plan": "ansi_thm.vx", "src": "msg"},
    {"name": "kind", "plan": "kind.vx", "src": "msg"},
    {"name": "msg", "plan": "msg_ts.vx", "src": "msg", "uses": ["ansi", "kind"]},
    {"name": "msgnots", "plan": "msg.vx", "src": "msgnots", "uses": ["ansi", "kind"]},
    {"name": "ba", "plan": "ba.vx", "src": "msg", "uses": ["ansi", "kind", "msg"]},
    {"name": "frame", "plan": "frame_thm.vx", "src": "msg", "uses": ["ansi", "kind", "msg"]},
    {"name": "prog", "plan": "prog.vx", "src": "msg", "uses": ["ansi", "kind", "msg", "frame", "prompt"]},
    {"name": "progsig", "plan": "progsig.vx", "src": "msgsig", "uses": ["ansi", "kind", "msg", "frame", "prompt"], "only": ["C09", "C10", "C19", "C22"]},
    {"name": "race", "plan": "race.vx", "src": "msg", "uses": ["ansi", "kind", "msg", "frame", "prompt"]},
    {"name": "prompt", "plan": "prompt.vx", "src": "msg", "uses": ["ansi", "kind", "msg"]},
    {"name": "screen", "plan": "screen.vx", "src": "msg", "uses": ["ansi", "kind", "msg", "frame", "prompt"]},
    {"name": "steady", "plan": "steady.vx", "src": "msg"},
    {"name": "steadysig", "plan": "steadysig.vx", "src": "msgsig"},
    {"name": "style", "plan": "style.vx", "src": "style"},
    {"name": "cli", "plan": "cli.vx", "src": "cli,msg", "uses": ["ansi", "kind", "msg", "prompt"]},
]
# Source configurations: (package, cargo target arguments, features)
SOURCES = {
    "msg": ("fyi_msg", ["--lib"], "fitted,progress,timestamps,bin_kinds"),
    "msgnots": ("fyi_msg", ["--lib"], "fitted,progress,bin_kinds"),
    "msgsig": ("fyi_msg", ["--lib"], "fitted,progress,timestamps,bin_kinds,signals"),
    # The macros of fyi_ansi themselves, with the keyword table its build script generates.
    "style": ("fyi_ansi", None, None),
    "cli": ("fyi", ["--bin", "fyi"], None),
}
