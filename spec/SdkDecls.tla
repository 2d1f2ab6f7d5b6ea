----------------------------- MODULE SdkDecls -----------------------------
(* Written by tools/sdkgen.py: the storage declarations of the templates in sdk-mock and sdk-wasm. *)
Scalars == << [ty |-> "bool", len |-> 0], [ty |-> "i8", len |-> 0], [ty |-> "u8", len |-> 0], [ty |-> "i16", len |-> 0], [ty |-> "u16", len |-> 0], [ty |-> "i32", len |-> 0], [ty |-> "u32", len |-> 0], [ty |-> "i64", len |-> 0], [ty |-> "u64", len |-> 0], [ty |-> "Amount", len |-> 0], [ty |-> "Address", len |-> 0] >>
Arrays == << [ty |-> "u8", len |-> 3], [ty |-> "Address", len |-> 2], [ty |-> "bool", len |-> 4], [ty |-> "i64", len |-> 1], [ty |-> "u16", len |-> 5], [ty |-> "Amount", len |-> 3], [ty |-> "i8", len |-> 2], [ty |-> "u32", len |-> 4], [ty |-> "i16", len |-> 3], [ty |-> "u64", len |-> 2], [ty |-> "i32", len |-> 6] >>
Mixed == << [ty |-> "Address", len |-> 3], [ty |-> "u8", len |-> 0], [ty |-> "bool", len |-> 7], [ty |-> "Amount", len |-> 0], [ty |-> "u16", len |-> 1], [ty |-> "Address", len |-> 0], [ty |-> "i64", len |-> 4], [ty |-> "u32", len |-> 0], [ty |-> "Amount", len |-> 2], [ty |-> "bool", len |-> 0], [ty |-> "i32", len |-> 2], [ty |-> "i16", len |-> 0] >>
Alike == << [ty |-> "u32", len |-> 0], [ty |-> "u32", len |-> 2], [ty |-> "u32", len |-> 0], [ty |-> "u32", len |-> 3], [ty |-> "u32", len |-> 0], [ty |-> "Address", len |-> 0], [ty |-> "Address", len |-> 2], [ty |-> "Address", len |-> 0], [ty |-> "u64", len |-> 2], [ty |-> "Amount", len |-> 0], [ty |-> "Amount", len |-> 2] >>
Long == << [ty |-> "u8", len |-> 40], [ty |-> "Address", len |-> 0], [ty |-> "Amount", len |-> 33], [ty |-> "bool", len |-> 0], [ty |-> "Address", len |-> 17], [ty |-> "u16", len |-> 0] >>
Decls == [Scalars |-> Scalars, Arrays |-> Arrays, Mixed |-> Mixed, Alike |-> Alike, Long |-> Long]
=============================================================================
