//! The fixed schemas: well-known types and "kitchen sink" files covering every kind of field.
use crate::{proto::parse, schema::File};

pub fn wkt() -> Vec<File> {
    vec![
        parse("google/protobuf/any.proto", r#"syntax = "proto3"; package google.protobuf;
            message Any { string type_url = 1; bytes value = 2; }"#),
        parse("google/protobuf/timestamp.proto", r#"syntax = "proto3"; package google.protobuf;
            message Timestamp { int64 seconds = 1; int32 nanos = 2; }"#),
        parse("google/protobuf/duration.proto", r#"syntax = "proto3"; package google.protobuf;
            message Duration { int64 seconds = 1; int32 nanos = 2; }"#),
        parse("google/protobuf/field_mask.proto", r#"syntax = "proto3"; package google.protobuf;
            message FieldMask { repeated string paths = 1; }"#),
        parse("google/protobuf/empty.proto", r#"syntax = "proto3"; package google.protobuf; message Empty {}"#),
        parse("google/protobuf/struct.proto", r#"syntax = "proto3"; package google.protobuf;
            message Struct { map<string, Value> fields = 1; }
            message Value { oneof kind { NullValue null_value = 1; double number_value = 2; string string_value = 3;
                bool bool_value = 4; Struct struct_value = 5; ListValue list_value = 6; } }
            enum NullValue { NULL_VALUE = 0; }
            message ListValue { repeated Value values = 1; }"#),
        parse("google/protobuf/wrappers.proto", r#"syntax = "proto3"; package google.protobuf;
            message DoubleValue { double value = 1; }
            message FloatValue { float value = 1; }
            message Int64Value { int64 value = 1; }
            message UInt64Value { uint64 value = 1; }
            message Int32Value { int32 value = 1; }
            message UInt32Value { uint32 value = 1; }
            message BoolValue { bool value = 1; }
            message StringValue { string value = 1; }
            message BytesValue { bytes value = 1; }"#),
    ]
}

pub fn kitchen() -> Vec<File> {
    let mut v = wkt();
    v.push(parse("v/k3.proto", r#"syntax = "proto3"; package v.k3;
        enum E { E_ZERO = 0; E_ONE = 1; E_TWO = 2; E_NEG = -1; E_MIN = -2147483648; }
        enum A { option allow_alias = true; A_ZERO = 0; A_NIL = 0; A_BIG = 2147483647; A_HUGE = 2147483647; a_low = 7; }
        message Scalars {
            double d = 1; float f = 2; int64 i64 = 17; uint64 u64 = 4; int32 i32 = 5; fixed64 fx64 = 6; fixed32 fx32 = 7;
            bool b = 8; string s = 9; bytes by = 16; uint32 u32 = 15; E en = 14; sfixed32 sf32 = 12; sfixed64 sf64 = 13;
            sint32 si32 = 2048; sint64 si64 = 536870911; Scalars sub = 2047; A al = 100;
        }
        message Opt {
            optional double d = 1; optional float f = 2; optional int64 i64 = 3; optional uint64 u64 = 4; optional int32 i32 = 5;
            optional fixed64 fx64 = 6; optional fixed32 fx32 = 7; optional bool b = 8; optional string s = 9; optional bytes by = 10;
            optional uint32 u32 = 11; optional E en = 12; optional sfixed32 sf32 = 13; optional sfixed64 sf64 = 14;
            optional sint32 si32 = 15; optional sint64 si64 = 16; optional Opt sub = 17; int32 plain = 18;
        }
        message Rep {
            repeated double d = 1; repeated float f = 2; repeated int64 i64 = 3; repeated uint64 u64 = 4; repeated int32 i32 = 5;
            repeated fixed64 fx64 = 6; repeated fixed32 fx32 = 7; repeated bool b = 8; repeated string s = 9; repeated bytes by = 10;
            repeated uint32 u32 = 11; repeated E en = 12; repeated sfixed32 sf32 = 13; repeated sfixed64 sf64 = 14;
            repeated sint32 si32 = 15; repeated sint64 si64 = 16; repeated Rep sub = 17;
            repeated int32 ui32 = 21 [packed = false]; repeated E uen = 22 [packed = false]; repeated double ud = 23 [packed = false, deprecated = true];
            repeated sint64 usi64 = 24 [packed = false]; repeated bool ub = 25 [packed = false]; repeated fixed32 ufx32 = 26 [packed = false];
            repeated uint64 pu64 = 27 [packed = true];
        }
        message Maps {
            map<string, string> ss = 1; map<int32, int32> ii = 2; map<int64, bool> lb = 3; map<uint32, bytes> uby = 4; map<uint64, double> ud = 5;
            map<sint32, E> se = 6; map<sint64, float> sf = 7; map<fixed32, sint32> fs = 8; map<fixed64, fixed64> ff = 9;
            map<sfixed32, uint64> sfu = 10; map<sfixed64, Maps> sfm = 11; map<bool, sint64> bs = 12; map<string, Opt> so = 13;
            map<string, A> sa = 14; map<bool, sfixed32> bsf = 15;
        }
        message One {
            int32 before = 1;
            oneof first { int32 i = 2; string s = 3; One m = 4; E e = 5; bytes by = 6; double d = 7; bool bo = 30; }
            int32 mid = 8;
            oneof second { uint64 u = 9; Maps maps = 10; sint32 si = 12; google.protobuf.NullValue nul = 13; google.protobuf.Value val = 14; }
            repeated int32 after = 11; optional int32 o1 = 15; optional int32 o2 = 16;
        }
        message Tree { Tree left = 1; repeated Tree kids = 2; map<string, Tree> named = 3; int32 v = 4; string label_text = 5; oneof x { Tree a = 6; Tree b_node = 7; } }
        message Names { int32 foo_bar = 1; int32 _lead = 2; int32 trail_ = 3; int32 dbl__u = 4; int32 x1_2y = 5; int32 CapName = 6; int32 custom = 7 [json_name = "my-Custom Name"];
            int32 camelCase = 8; map<string, int32> map_field_name = 9; repeated string rep_name = 10; Names sub_msg = 11 [json_name = "sub_msg"]; optional string opt_str_ = 12; }
        message Empty {}
        import "google/protobuf/struct.proto";
        service Svc { rpc Get(Scalars) returns (stream Rep); rpc Put(stream Tree) returns (Empty); }
        "#));
    v.push(parse("v/kw.proto", r#"syntax = "proto3"; package v.kw;
        import "google/protobuf/any.proto"; import "google/protobuf/timestamp.proto"; import "google/protobuf/duration.proto";
        import "google/protobuf/field_mask.proto"; import "google/protobuf/empty.proto"; import "google/protobuf/struct.proto"; import "google/protobuf/wrappers.proto";
        import "v/k3.proto";
        message Wk {
            google.protobuf.Timestamp ts = 1; google.protobuf.Duration du = 2; google.protobuf.FieldMask fm = 3; google.protobuf.Empty em = 4;
            google.protobuf.Struct st = 5; google.protobuf.Value va = 6; google.protobuf.ListValue lv = 7; google.protobuf.Any any = 8;
            google.protobuf.DoubleValue wd = 9; google.protobuf.FloatValue wf = 10; google.protobuf.Int64Value wi64 = 11; google.protobuf.UInt64Value wu64 = 12;
            google.protobuf.Int32Value wi32 = 13; google.protobuf.UInt32Value wu32 = 14; google.protobuf.BoolValue wb = 15; google.protobuf.StringValue ws = 16;
            google.protobuf.BytesValue wby = 17; google.protobuf.NullValue nu = 18;
            repeated google.protobuf.Timestamp rts = 21; repeated google.protobuf.Duration rdu = 22; repeated google.protobuf.Value rva = 23;
            repeated google.protobuf.Any rany = 24; repeated google.protobuf.Int64Value rwi = 25; repeated google.protobuf.NullValue rnu = 26; repeated google.protobuf.FieldMask rfm = 27;
            map<string, google.protobuf.Value> mva = 31; map<int32, google.protobuf.Timestamp> mts = 32; map<string, google.protobuf.StringValue> mws = 33;
            map<string, google.protobuf.Any> many = 34; map<string, google.protobuf.Struct> mst = 35; map<string, google.protobuf.NullValue> mnu = 36; repeated google.protobuf.Struct rst = 37;
            optional google.protobuf.NullValue onu = 38; repeated google.protobuf.DoubleValue rwd = 39;
            oneof w { google.protobuf.Value ova = 41; google.protobuf.NullValue ono = 42; google.protobuf.BoolValue obo = 43; google.protobuf.Any oany = 44; v.k3.Tree otr = 45; }
        }"#));
    v.push(parse("v/k2.proto", r#"syntax = "proto2"; package v.k2;
        enum E { E_FIVE = 5; E_ZERO = 0; E_SEVEN = 7; E_NEG = -3; }
        message Base {
            optional int32 i = 1 [default = -42]; optional string s = 2 [default = "dflt \"x\""]; optional bytes by = 3 [default = "\001\x7f\n\\\377"];
            optional double d = 4 [default = 1.5e3]; optional float f = 5 [default = -inf]; optional bool b = 6 [default = true];
            optional E e = 7 [default = E_SEVEN]; optional E e0 = 8; required int32 req = 9; repeated int32 ru = 10; repeated int32 rp = 11 [packed = true];
            repeated E re = 12 [packed = true]; repeated group Grp = 13 { optional int32 x = 1; optional Base nested = 2; repeated group Inner = 3 { optional string y = 1; } }
            optional group One = 14 { optional int32 x = 1; optional bytes z = 2; }
            optional uint64 u64 = 15 [default = 18446744073709551615]; optional sint64 s64 = 16 [default = -9223372036854775808];
            optional fixed32 fx = 17 [default = 4294967295]; optional sfixed64 sfx = 18; optional double nan = 19 [default = nan];
            oneof ch { int32 ca = 21; string cb = 22; group Chg = 23 { optional int32 q = 1; } E ce = 24; Base cm = 25; }
            map<string, E> me = 26; map<int32, Base> mb = 27; repeated sint32 rs = 28 [packed = true]; repeated double rd = 29 [packed = true]; repeated string rstr = 30;
            repeated fixed64 rf64 = 31 [packed = true]; repeated bool rb = 32 [packed = true];
            map<uint64, bytes> mub = 33; map<bool, float> mbf = 34;
            extensions 100 to 199; extensions 1000 to max;
        }
        message Holder {
            extensions 1 to 50;
            optional Base base = 60;
            extend Base { optional int32 hx = 120; repeated Holder hrep = 121; optional string h_str = 122 [default = "hs"]; }
        }
        message Plain { optional int32 a_b = 1; optional Plain p = 2; }
        extend Base {
            optional int32 xi = 100; optional string xs = 101 [default = "ext"]; repeated sint32 xr = 102; repeated sint32 xp = 103 [packed = true];
            optional Base xm = 104; optional E xe = 105 [default = E_ZERO]; optional E xe5 = 106; repeated group XGrp = 107 { optional int32 g = 1; }
            optional bytes xb = 1000; repeated Plain xrm = 536870911; optional group XOne = 108 { optional string h = 3; } optional double xd = 109 [default = 2.5];
            optional bool xbool = 110; repeated E xre = 111 [packed = true]; optional uint64 xu = 112; optional float xf = 113;
        }
        extend Holder { optional int32 same_num = 1; repeated string strs = 2; optional Holder rec = 50; optional bool xi2 = 3; }
        "#));
    v.push(parse("v/kx.proto", r#"syntax = "proto3"; package v.kx; import "v/k2.proto"; import "google/protobuf/any.proto";
        extend v.k2.Base { int32 p3i = 150; repeated int32 p3r = 151; string p3s = 152; v.k2.Plain p3m = 153; repeated int32 p3u = 154 [packed = false]; google.protobuf.Any p3any = 155; }
        message Sub { message Deep { extend v.k2.Holder { optional fixed64 deep = 10; } int32 z = 1; } Deep deep = 1; google.protobuf.Any inner_any = 2; repeated google.protobuf.Any anys = 3; map<string, google.protobuf.Any> many = 4; int32 number = 5; }
        "#));
    // a newer and an older version of the same message: fields unknown to the older one
    v.push(parse("v/ver.proto", r#"syntax = "proto3"; package v.ver;
        message New { int32 a = 1; string b = 2; repeated int32 c = 3; New sub = 4; map<string, int32> m = 5; double d = 6; fixed32 f = 7; repeated New rs = 8; oneof o { int32 x = 9; string y = 10; } sint64 z = 1000; bytes by = 536870910; }
        message Old { int32 a = 1; Old sub = 4; oneof o { int32 x = 9; } repeated Old rs = 8; }
        message None {}
        "#));
    v
}

/// the schema of the closed model of messages (spec/MsgMC.tla)
pub fn small() -> Vec<File> {
    vec![
        parse("s/s3.proto", r#"syntax = "proto3"; package s; enum E { E0 = 0; E1 = 1; } message Z { int32 a = 1; E e = 2; }"#),
        parse("s/s2.proto", r#"syntax = "proto2"; package s; import "s/s3.proto";
            message N {
                optional int32 a = 1 [default = 5];
                oneof o { bool x = 2; N y = 3; }
                repeated sint32 r = 4 [packed = true];
                map<bool, Z> q = 5;
                optional Z z = 6;
                optional group G = 7 { optional string t = 1; }
                extensions 10 to 20;
            }
            extend N { optional string e = 10 [default = "d"]; repeated E f = 11; }
            "#),
    ]
}

/// the files of the closed model of pools (spec/PoolMC.tla): some valid, some at odds with each other, some wrong
pub fn universe() -> Vec<File> {
    vec![
        parse("a.proto", r#"syntax = "proto2"; package p; message A { optional int32 x = 1; extensions 10 to 20; message I {} } enum E { E0 = 1; }"#),
        parse("b.proto", r#"syntax = "proto2"; package p; import "a.proto"; message B { optional A a = 1; optional E e = 2; } extend A { optional B bx = 10; } service V { rpc M(A) returns (A.I); }"#),
        parse("c.proto", r#"syntax = "proto2"; package p.q; import public "b.proto"; message C { repeated p.B b = 1; }"#),
        parse("d.proto", r#"syntax = "proto2"; package q; import "c.proto"; message D { optional p.B b = 1; optional p.q.C c = 2; }"#),
        // the same name as in a.proto
        parse("e.proto", r#"syntax = "proto2"; package p; message A { }"#),
        // the package is the name of a message of a.proto
        parse("f.proto", r#"syntax = "proto2"; package p.A; message M { }"#),
        // two extensions of one message, the second out of its ranges
        parse("g.proto", r#"syntax = "proto2"; import "a.proto"; extend p.A { optional int32 g1 = 12; optional int32 g2 = 30; }"#),
        // another file with a name already used
        parse("b.proto", r#"syntax = "proto3"; package p; message H { H h = 1; }"#),
        // a.proto is not imported
        parse("x.proto", r#"syntax = "proto2"; message X { } message Y { optional p.A a = 1; }"#),
        // proto3, uses what c.proto hands on
        parse("y.proto", r#"syntax = "proto3"; package p.q; import "c.proto"; message Y { repeated int32 n = 1; B b = 2; oneof o { C c = 3; string s = 4; } }"#),
        // extends a message of its own and one of another file
        parse("z.proto", r#"syntax = "proto2"; import "a.proto"; message Z { extensions 1; extend p.A { optional Z zx = 11; } extend Z { repeated int32 zz = 1 [packed = true]; } }"#),
    ]
}
