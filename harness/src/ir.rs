//! The schema IR of given file descriptors.
use crate::schema::*;
use prost::Message;
use prost_types::{DescriptorProto, EnumDescriptorProto, EnumOptions, FieldDescriptorProto, FieldOptions, FileDescriptorProto, FileDescriptorSet, MessageOptions, ServiceDescriptorProto};

fn enc<T: Message>(x: &Option<T>) -> Vec<u8> {
    x.as_ref().map_or(vec![], |o| o.encode_to_vec())
}
pub fn file(p: &FileDescriptorProto) -> File {
    File {
        name: p.name.clone(),
        package: p.package.clone(),
        syntax: p.syntax.clone(),
        deps: p.dependency.clone(),
        public: p.public_dependency.clone(),
        weak: p.weak_dependency.clone(),
        msgs: p.message_type.iter().map(msg).collect(),
        enums: p.enum_type.iter().map(en).collect(),
        svcs: p.service.iter().map(svc).collect(),
        exts: p.extension.iter().map(field).collect(),
        opts: enc(&p.options),
        ..Default::default()
    }
}
fn msg(m: &DescriptorProto) -> Msg {
    let o = m.options.clone().unwrap_or_default();
    Msg {
        name: m.name.clone(),
        fields: m.field.iter().map(field).collect(),
        oneofs: m.oneof_decl.iter().map(|o| o.name.clone()).collect(),
        msgs: m.nested_type.iter().map(msg).collect(),
        enums: m.enum_type.iter().map(en).collect(),
        exts: m.extension.iter().map(field).collect(),
        ext_ranges: m.extension_range.iter().map(|r| (r.start(), r.end())).collect(),
        res_ranges: m.reserved_range.iter().map(|r| (r.start(), r.end())).collect(),
        res_names: m.reserved_name.clone(),
        map_entry: o.map_entry(),
        opts: MessageOptions { map_entry: None, ..o }.encode_to_vec(),
        ..Default::default()
    }
}
fn field(f: &FieldDescriptorProto) -> Field {
    let o = f.options.clone().unwrap_or_default();
    Field {
        name: f.name.clone(),
        num: f.number,
        label: f.label.unwrap_or(0),
        ty: f.r#type.unwrap_or(0),
        tname: f.type_name.clone(),
        extendee: f.extendee.clone(),
        json: f.json_name.clone(),
        dflt: f.default_value.clone(),
        oneof: f.oneof_index,
        p3opt: f.proto3_optional(),
        packed: o.packed,
        deprecated: o.deprecated,
        opts: FieldOptions { packed: None, deprecated: None, ..o }.encode_to_vec(),
        ..Default::default()
    }
}
fn en(e: &EnumDescriptorProto) -> Enum {
    let o = e.options.clone().unwrap_or_default();
    Enum {
        name: e.name.clone(),
        vals: e.value.iter().map(|v| (v.name.clone(), v.number)).collect(),
        alias: o.allow_alias(),
        res_ranges: e.reserved_range.iter().map(|r| (r.start(), r.end())).collect(),
        res_names: e.reserved_name.clone(),
        opts: EnumOptions { allow_alias: None, ..o }.encode_to_vec(),
        ..Default::default()
    }
}
fn svc(s: &ServiceDescriptorProto) -> Svc {
    Svc {
        name: s.name.clone(),
        methods: s
            .method
            .iter()
            .map(|m| Method { name: m.name.clone(), input: m.input_type.clone(), output: m.output_type.clone(), cs: m.client_streaming(), ss: m.server_streaming(), ..Default::default() })
            .collect(),
        opts: enc(&s.options),
        ..Default::default()
    }
}
/// the well-known files as protoc 3.21 describes them
pub fn files_of(set: &[u8]) -> Vec<File> {
    FileDescriptorSet::decode(set).unwrap().file.iter().map(file).collect()
}
pub fn well_known() -> Vec<File> {
    files_of(include_bytes!("wkt.bin"))
}
