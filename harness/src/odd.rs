//! Messages nested and named in every way the generated code has to keep apart.
use crate::{proto::parse, schema::File};

pub fn files() -> Vec<File> {
    vec![
        parse("o/deep.proto", r#"syntax = "proto3"; package o.deep;
            message A { int32 x = 1; B b = 2;
                message B { int32 y = 1; C c = 2; A up = 3;
                    message C { string z = 1; D d = 2; oneof pick { D e = 3; A f = 4; int32 g = 5; } message D { repeated A as = 1; map<string, C> cs = 2; enum K { K0 = 0; K1 = 1; } K k = 3; } }
                }
                message D { int64 other = 1; }
                enum B2 { Z = 0; }
                oneof c { int32 o1 = 5; D d = 6; }
            }
            message Ab { A.B b = 1; A.B.C.D d = 2; message B { bool only = 1; } B mine = 3; }
            message ABC { int32 caps = 1; }
            message lower_case { int32 x = 1; message inner_one { int32 y = 1; } inner_one i = 2; }
            message CamelCASE { int32 x = 1; message HTTPServer2Go { int32 y = 1; } HTTPServer2Go h = 2; }
            message type { int32 x = 1; message match { int32 y = 1; } match m = 2; }
            message Self { int32 self = 1; string crate = 2; Self super = 3; }
            message Option { Option some = 1; string none = 2; message Some { int32 v = 1; } Some s = 3; }
            message Vec { repeated Vec vec = 1; map<int32, Vec> m = 2; }
            message String { string string = 1; String s = 2; }
            message M_1 { int32 a_1 = 1; } message M2 { M_1 m = 1; }
            "#),
        parse("o/deep2.proto", r#"syntax = "proto3"; package o.deep; import "o/deep.proto";
            message Other { A a = 1; message A2 { int32 q = 1; message B { string r = 1; } B b = 2; } A2 a2 = 2; }
            "#),
        parse("o/other.proto", r#"syntax = "proto2"; package o.other.pkg; import "o/deep.proto";
            message A { optional int32 x = 1; required A.B b = 2; message B { required string s = 1 [default = "needed"]; optional o.deep.A.B far = 2; } }
            message Req { required int32 i = 1 [default = 7]; required double d = 2 [default = -1.5]; required bytes by = 3 [default = "a\x00b"]; required E e = 4 [default = TWO]; required bool b = 5;
                enum E { ONE = 1; TWO = 2; } repeated A as = 6; map<string, A> ms = 7; optional group Grp = 8 { required int32 g = 1; optional Req r = 2; } oneof ch { A ca = 9; group Chg = 10 { required sint64 n = 1; } } repeated group Rg = 11 { required float f = 1; } }
            "#),
        parse("o/nopkg.proto", r#"syntax = "proto3";
            message NoPackage { int32 x = 1; message Inside { int32 y = 1; NoPackage back = 2; } Inside i = 2; optional Inside j = 3; }
            "#),
        parse("o/sub.proto", r#"syntax = "proto3"; package o.deep.sub; import "o/deep.proto"; import "o/nopkg.proto";
            message Leaf { o.deep.A a = 1; NoPackage n = 2; repeated o.deep.A.B.C cs = 3; }
            "#),
    ]
}
