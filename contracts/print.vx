# Printing.
@include msg.vx
@include world.vx
@raw
impl VxAsRef<str> for &str {
	open spec fn text(&self) -> Seq<char> { self@ }
	fn vx_as_ref<'a>(&'a self) -> (r: &'a str) { *self }
}
impl VxAsRef<str> for String {
	open spec fn text(&self) -> Seq<char> { self@ }
	fn vx_as_ref<'a>(&'a self) -> (r: &'a str) { self.as_str() }
}
@end
@fn Msg::print
+props C16 C14
+params Tracked(w): Tracked<&mut World>
+callargs write_all Tracked(w)
+callargs flush Tracked(w)
+kind and_then result
+sig
ensures wrote(old(w), final(w), false, encode_utf8(self.text())),
@fn Msg::eprint
+props C16 C14
+params Tracked(w): Tracked<&mut World>
+callargs write_all Tracked(w)
+callargs flush Tracked(w)
+kind and_then result
+sig
ensures wrote(old(w), final(w), true, encode_utf8(self.text())),
