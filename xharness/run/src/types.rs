//! The types prost-reflect implements reflection for, and the message type each stands for.
use crate::{go, Got, Op};

pub const TYPES: &[(&str, fn(&Op) -> Got)] = &[
    ("google.protobuf.Empty", go::<()>),
    ("google.protobuf.BoolValue", go::<bool>),
    ("google.protobuf.FloatValue", go::<f32>),
    ("google.protobuf.DoubleValue", go::<f64>),
    ("google.protobuf.Int32Value", go::<i32>),
    ("google.protobuf.Int64Value", go::<i64>),
    ("google.protobuf.StringValue", go::<std::string::String>),
    ("google.protobuf.UInt32Value", go::<u32>),
    ("google.protobuf.UInt64Value", go::<u64>),
    ("google.protobuf.BytesValue", go::<Vec<u8>>),
    ("google.protobuf.Any", go::<prost_types::Any>),
    ("google.protobuf.Api", go::<prost_types::Api>),
    ("google.protobuf.compiler.CodeGeneratorRequest", go::<prost_types::compiler::CodeGeneratorRequest>),
    ("google.protobuf.compiler.CodeGeneratorResponse", go::<prost_types::compiler::CodeGeneratorResponse>),
    ("google.protobuf.compiler.CodeGeneratorResponse.File", go::<prost_types::compiler::code_generator_response::File>),
    ("google.protobuf.compiler.Version", go::<prost_types::compiler::Version>),
    ("google.protobuf.DescriptorProto", go::<prost_types::DescriptorProto>),
    ("google.protobuf.DescriptorProto.ExtensionRange", go::<prost_types::descriptor_proto::ExtensionRange>),
    ("google.protobuf.DescriptorProto.ReservedRange", go::<prost_types::descriptor_proto::ReservedRange>),
    ("google.protobuf.Duration", go::<prost_types::Duration>),
    ("google.protobuf.Enum", go::<prost_types::Enum>),
    ("google.protobuf.EnumDescriptorProto", go::<prost_types::EnumDescriptorProto>),
    ("google.protobuf.EnumDescriptorProto.EnumReservedRange", go::<prost_types::enum_descriptor_proto::EnumReservedRange>),
    ("google.protobuf.EnumOptions", go::<prost_types::EnumOptions>),
    ("google.protobuf.EnumValue", go::<prost_types::EnumValue>),
    ("google.protobuf.EnumValueDescriptorProto", go::<prost_types::EnumValueDescriptorProto>),
    ("google.protobuf.EnumValueOptions", go::<prost_types::EnumValueOptions>),
    ("google.protobuf.ExtensionRangeOptions", go::<prost_types::ExtensionRangeOptions>),
    ("google.protobuf.Field", go::<prost_types::Field>),
    ("google.protobuf.FieldDescriptorProto", go::<prost_types::FieldDescriptorProto>),
    ("google.protobuf.FieldMask", go::<prost_types::FieldMask>),
    ("google.protobuf.FieldOptions", go::<prost_types::FieldOptions>),
    ("google.protobuf.FileDescriptorProto", go::<prost_types::FileDescriptorProto>),
    ("google.protobuf.FileDescriptorSet", go::<prost_types::FileDescriptorSet>),
    ("google.protobuf.FileOptions", go::<prost_types::FileOptions>),
    ("google.protobuf.GeneratedCodeInfo", go::<prost_types::GeneratedCodeInfo>),
    ("google.protobuf.GeneratedCodeInfo.Annotation", go::<prost_types::generated_code_info::Annotation>),
    ("google.protobuf.ListValue", go::<prost_types::ListValue>),
    ("google.protobuf.MessageOptions", go::<prost_types::MessageOptions>),
    ("google.protobuf.Method", go::<prost_types::Method>),
    ("google.protobuf.MethodDescriptorProto", go::<prost_types::MethodDescriptorProto>),
    ("google.protobuf.MethodOptions", go::<prost_types::MethodOptions>),
    ("google.protobuf.Mixin", go::<prost_types::Mixin>),
    ("google.protobuf.OneofDescriptorProto", go::<prost_types::OneofDescriptorProto>),
    ("google.protobuf.OneofOptions", go::<prost_types::OneofOptions>),
    ("google.protobuf.Option", go::<prost_types::Option>),
    ("google.protobuf.ServiceDescriptorProto", go::<prost_types::ServiceDescriptorProto>),
    ("google.protobuf.ServiceOptions", go::<prost_types::ServiceOptions>),
    ("google.protobuf.SourceCodeInfo", go::<prost_types::SourceCodeInfo>),
    ("google.protobuf.SourceCodeInfo.Location", go::<prost_types::source_code_info::Location>),
    ("google.protobuf.SourceContext", go::<prost_types::SourceContext>),
    ("google.protobuf.Struct", go::<prost_types::Struct>),
    ("google.protobuf.Timestamp", go::<prost_types::Timestamp>),
    ("google.protobuf.Type", go::<prost_types::Type>),
    ("google.protobuf.UninterpretedOption", go::<prost_types::UninterpretedOption>),
    ("google.protobuf.UninterpretedOption.NamePart", go::<prost_types::uninterpreted_option::NamePart>),
    ("google.protobuf.Value", go::<prost_types::Value>),
    ("google.protobuf.BytesValue", go::<prost::bytes::Bytes>),
];
