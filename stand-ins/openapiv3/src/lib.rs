//! Stand-in for the `openapiv3` crate 2.0.0: the same public data model, as far as
//! progenitor uses it.
use indexmap::IndexMap;
use serde::{de::Error as _, Deserialize, Deserializer, Serialize};
use serde_json::Value;

type Ext = IndexMap<String, Value>;

#[derive(Debug, Clone, Serialize, PartialEq)]
#[serde(untagged)]
pub enum ReferenceOr<T> {
    Reference {
        #[serde(rename = "$ref")]
        reference: String,
    },
    Item(T),
}

impl<'de, T: serde::de::DeserializeOwned> Deserialize<'de> for ReferenceOr<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Value::deserialize(d)?;
        if let Some(r) = v.get("$ref").and_then(Value::as_str) {
            return Ok(ReferenceOr::Reference { reference: r.to_string() });
        }
        serde_json::from_value(v).map(ReferenceOr::Item).map_err(D::Error::custom)
    }
}

impl<T> ReferenceOr<T> {
    pub fn ref_(r: &str) -> Self {
        ReferenceOr::Reference { reference: r.to_owned() }
    }
    pub fn boxed(self) -> ReferenceOr<Box<T>> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference },
            ReferenceOr::Item(i) => ReferenceOr::Item(Box::new(i)),
        }
    }
    pub fn into_item(self) -> Option<T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_item(&self) -> Option<&T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_ref(&self) -> ReferenceOr<&T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference: reference.clone() },
            ReferenceOr::Item(i) => ReferenceOr::Item(i),
        }
    }
}

impl<T> ReferenceOr<Box<T>> {
    pub fn unbox(self) -> ReferenceOr<T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference },
            ReferenceOr::Item(b) => ReferenceOr::Item(*b),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct OpenAPI {
    pub openapi: String,
    pub info: Info,
    pub servers: Vec<Value>,
    pub paths: Paths,
    pub components: Option<Components>,
    pub security: Option<Vec<Value>>,
    pub tags: Vec<Tag>,
    #[serde(rename = "externalDocs")]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(flatten)]
    pub extensions: Ext,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
pub struct Info {
    pub title: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(rename = "termsOfService", default)]
    pub terms_of_service: Option<String>,
    #[serde(default)]
    pub contact: Option<Value>,
    #[serde(default)]
    pub license: Option<Value>,
    pub version: String,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
pub struct ExternalDocumentation {
    #[serde(default)]
    pub description: Option<String>,
    pub url: String,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
pub struct Tag {
    pub name: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(rename = "externalDocs", default)]
    pub external_docs: Option<ExternalDocumentation>,
}

#[derive(Debug, Clone, Serialize, PartialEq, Default)]
pub struct Paths {
    pub paths: IndexMap<String, ReferenceOr<PathItem>>,
    pub extensions: Ext,
}

impl<'de> Deserialize<'de> for Paths {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let all = IndexMap::<String, Value>::deserialize(d)?;
        let mut out = Paths::default();
        for (k, v) in all {
            if k.starts_with("x-") {
                out.extensions.insert(k, v);
            } else {
                out.paths.insert(k, serde_json::from_value(v).map_err(D::Error::custom)?);
            }
        }
        Ok(out)
    }
}

impl Paths {
    pub fn iter(&self) -> indexmap::map::Iter<'_, String, ReferenceOr<PathItem>> {
        self.paths.iter()
    }
}

impl<'a> IntoIterator for &'a Paths {
    type Item = (&'a String, &'a ReferenceOr<PathItem>);
    type IntoIter = indexmap::map::Iter<'a, String, ReferenceOr<PathItem>>;
    fn into_iter(self) -> Self::IntoIter {
        self.paths.iter()
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct PathItem {
    pub summary: Option<String>,
    pub description: Option<String>,
    pub get: Option<Operation>,
    pub put: Option<Operation>,
    pub post: Option<Operation>,
    pub delete: Option<Operation>,
    pub options: Option<Operation>,
    pub head: Option<Operation>,
    pub patch: Option<Operation>,
    pub trace: Option<Operation>,
    pub servers: Vec<Value>,
    pub parameters: Vec<ReferenceOr<Parameter>>,
    #[serde(flatten)]
    pub extensions: Ext,
}

impl PathItem {
    pub fn iter(&self) -> impl Iterator<Item = (&str, &Operation)> {
        vec![
            ("get", &self.get),
            ("put", &self.put),
            ("post", &self.post),
            ("delete", &self.delete),
            ("options", &self.options),
            ("head", &self.head),
            ("patch", &self.patch),
            ("trace", &self.trace),
        ]
        .into_iter()
        .filter_map(|(m, o)| o.as_ref().map(|o| (m, o)))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default, rename_all = "camelCase")]
pub struct Operation {
    pub tags: Vec<String>,
    pub summary: Option<String>,
    pub description: Option<String>,
    pub external_docs: Option<ExternalDocumentation>,
    pub operation_id: Option<String>,
    pub parameters: Vec<ReferenceOr<Parameter>>,
    pub request_body: Option<ReferenceOr<RequestBody>>,
    pub responses: Responses,
    pub deprecated: bool,
    pub security: Option<Vec<Value>>,
    pub servers: Vec<Value>,
    #[serde(flatten)]
    pub extensions: Ext,
}

#[derive(Debug, Clone, Serialize, PartialEq, Default)]
pub struct Responses {
    pub default: Option<ReferenceOr<Response>>,
    pub responses: IndexMap<StatusCode, ReferenceOr<Response>>,
    pub extensions: Ext,
}

impl<'de> Deserialize<'de> for Responses {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let all = IndexMap::<String, Value>::deserialize(d)?;
        let mut out = Responses::default();
        for (k, v) in all {
            if k.starts_with("x-") {
                out.extensions.insert(k, v);
                continue;
            }
            let r = serde_json::from_value(v).map_err(D::Error::custom)?;
            if k == "default" {
                out.default = Some(r);
            } else {
                let code = match k.as_bytes() {
                    [c @ b'1'..=b'5', b'x' | b'X', b'x' | b'X'] => StatusCode::Range((c - b'0') as u16),
                    _ => StatusCode::Code(k.parse().map_err(D::Error::custom)?),
                };
                out.responses.insert(code, r);
            }
        }
        Ok(out)
    }
}

#[derive(Debug, Clone, Serialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum StatusCode {
    Code(u16),
    Range(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Response {
    pub description: String,
    pub headers: IndexMap<String, Value>,
    pub content: IndexMap<String, MediaType>,
    pub links: IndexMap<String, Value>,
    #[serde(flatten)]
    pub extensions: Ext,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct RequestBody {
    pub description: Option<String>,
    pub content: IndexMap<String, MediaType>,
    pub required: bool,
    #[serde(flatten)]
    pub extensions: Ext,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct MediaType {
    pub schema: Option<ReferenceOr<Schema>>,
    pub example: Option<Value>,
    pub examples: IndexMap<String, Value>,
    pub encoding: IndexMap<String, Value>,
    #[serde(flatten)]
    pub extensions: Ext,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(tag = "in", rename_all = "camelCase")]
pub enum Parameter {
    #[serde(rename_all = "camelCase")]
    Query {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        allow_reserved: bool,
        #[serde(default)]
        style: QueryStyle,
        #[serde(default)]
        allow_empty_value: Option<bool>,
    },
    Header {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: HeaderStyle,
    },
    Path {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: PathStyle,
    },
    Cookie {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: CookieStyle,
    },
}

impl Parameter {
    pub fn parameter_data(self) -> ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
    pub fn parameter_data_ref(&self) -> &ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct ParameterData {
    pub name: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default)]
    pub required: bool,
    #[serde(default)]
    pub deprecated: Option<bool>,
    #[serde(flatten)]
    pub format: ParameterSchemaOrContent,
    #[serde(default)]
    pub example: Option<Value>,
    #[serde(default)]
    pub examples: IndexMap<String, Value>,
    #[serde(default)]
    pub explode: Option<bool>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub enum ParameterSchemaOrContent {
    Schema(ReferenceOr<Schema>),
    Content(IndexMap<String, MediaType>),
}

macro_rules! style {
    ($n:ident, $d:ident, $($v:ident),*) => {
        #[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
        #[serde(rename_all = "camelCase")]
        pub enum $n { #[default] $d, $($v),* }
    };
}
style!(QueryStyle, Form, SpaceDelimited, PipeDelimited, DeepObject);
style!(HeaderStyle, Simple,);
style!(PathStyle, Simple, Matrix, Label);
style!(CookieStyle, Form,);

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default, rename_all = "camelCase")]
pub struct Components {
    pub schemas: IndexMap<String, ReferenceOr<Schema>>,
    pub responses: IndexMap<String, ReferenceOr<Response>>,
    pub parameters: IndexMap<String, ReferenceOr<Parameter>>,
    pub examples: IndexMap<String, Value>,
    pub request_bodies: IndexMap<String, ReferenceOr<RequestBody>>,
    pub headers: IndexMap<String, Value>,
    pub security_schemes: IndexMap<String, Value>,
    pub links: IndexMap<String, Value>,
    pub callbacks: IndexMap<String, Value>,
    #[serde(flatten)]
    pub extensions: Ext,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default, rename_all = "camelCase")]
pub struct SchemaData {
    pub nullable: bool,
    pub read_only: bool,
    pub write_only: bool,
    pub deprecated: bool,
    pub external_docs: Option<ExternalDocumentation>,
    pub example: Option<Value>,
    pub title: Option<String>,
    pub description: Option<String>,
    pub discriminator: Option<Discriminator>,
    pub default: Option<Value>,
    #[serde(flatten)]
    pub extensions: Ext,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default, rename_all = "camelCase")]
pub struct Discriminator {
    pub property_name: String,
    pub mapping: IndexMap<String, String>,
    #[serde(flatten)]
    pub extensions: Ext,
}

#[derive(Debug, Clone, Serialize, PartialEq)]
pub struct Schema {
    pub schema_data: SchemaData,
    pub schema_kind: SchemaKind,
}

#[derive(Debug, Clone, Serialize, PartialEq)]
pub enum SchemaKind {
    Type(Type),
    OneOf { one_of: Vec<ReferenceOr<Schema>> },
    AllOf { all_of: Vec<ReferenceOr<Schema>> },
    AnyOf { any_of: Vec<ReferenceOr<Schema>> },
    Not { not: Box<ReferenceOr<Schema>> },
    Any(AnySchema),
}

#[derive(Debug, Clone, Serialize, PartialEq)]
pub enum Type {
    String(StringType),
    Number(NumberType),
    Integer(IntegerType),
    Object(ObjectType),
    Array(ArrayType),
    Boolean(BooleanType),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(untagged)]
pub enum AdditionalProperties {
    Any(bool),
    Schema(Box<ReferenceOr<Schema>>),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default, rename_all = "camelCase")]
pub struct AnySchema {
    #[serde(rename = "type")]
    pub typ: Option<String>,
    pub pattern: Option<String>,
    pub multiple_of: Option<f64>,
    pub exclusive_minimum: Option<bool>,
    pub exclusive_maximum: Option<bool>,
    pub minimum: Option<f64>,
    pub maximum: Option<f64>,
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    pub required: Vec<String>,
    pub additional_properties: Option<AdditionalProperties>,
    pub min_properties: Option<usize>,
    pub max_properties: Option<usize>,
    pub items: Option<ReferenceOr<Box<Schema>>>,
    pub min_items: Option<usize>,
    pub max_items: Option<usize>,
    pub unique_items: Option<bool>,
    #[serde(rename = "enum")]
    pub enumeration: Vec<Value>,
    pub format: Option<String>,
    pub min_length: Option<usize>,
    pub max_length: Option<usize>,
    pub one_of: Vec<ReferenceOr<Schema>>,
    pub all_of: Vec<ReferenceOr<Schema>>,
    pub any_of: Vec<ReferenceOr<Schema>>,
    pub not: Option<Box<ReferenceOr<Schema>>>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default, rename_all = "camelCase")]
pub struct StringType {
    pub format: VariantOrUnknownOrEmpty<StringFormat>,
    pub pattern: Option<String>,
    #[serde(rename = "enum")]
    pub enumeration: Vec<Option<String>>,
    pub min_length: Option<usize>,
    pub max_length: Option<usize>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default, rename_all = "camelCase")]
pub struct NumberType {
    pub format: VariantOrUnknownOrEmpty<NumberFormat>,
    pub multiple_of: Option<f64>,
    pub exclusive_minimum: bool,
    pub exclusive_maximum: bool,
    pub minimum: Option<f64>,
    pub maximum: Option<f64>,
    #[serde(rename = "enum")]
    pub enumeration: Vec<Option<f64>>,
}

fn int<'de, D: Deserializer<'de>>(d: D) -> Result<Option<i64>, D::Error> {
    Ok(Option::<f64>::deserialize(d)?.map(|f| f as i64))
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default, rename_all = "camelCase")]
pub struct IntegerType {
    pub format: VariantOrUnknownOrEmpty<IntegerFormat>,
    #[serde(deserialize_with = "int")]
    pub multiple_of: Option<i64>,
    pub exclusive_minimum: bool,
    pub exclusive_maximum: bool,
    #[serde(deserialize_with = "int")]
    pub minimum: Option<i64>,
    #[serde(deserialize_with = "int")]
    pub maximum: Option<i64>,
    #[serde(rename = "enum")]
    pub enumeration: Vec<Option<i64>>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default, rename_all = "camelCase")]
pub struct ObjectType {
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    pub required: Vec<String>,
    pub additional_properties: Option<AdditionalProperties>,
    pub min_properties: Option<usize>,
    pub max_properties: Option<usize>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default, rename_all = "camelCase")]
pub struct ArrayType {
    pub items: Option<ReferenceOr<Box<Schema>>>,
    pub min_items: Option<usize>,
    pub max_items: Option<usize>,
    pub unique_items: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct BooleanType {
    #[serde(rename = "enum")]
    pub enumeration: Vec<Option<bool>>,
}

#[derive(Debug, Clone, Serialize, PartialEq, Default)]
pub enum VariantOrUnknownOrEmpty<T> {
    Item(T),
    Unknown(String),
    #[default]
    Empty,
}

impl<'de, T: serde::de::DeserializeOwned> Deserialize<'de> for VariantOrUnknownOrEmpty<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if s.is_empty() {
            return Ok(VariantOrUnknownOrEmpty::Empty);
        }
        Ok(match serde_json::from_value(Value::String(s.clone())) {
            Ok(t) => VariantOrUnknownOrEmpty::Item(t),
            Err(_) => VariantOrUnknownOrEmpty::Unknown(s),
        })
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "kebab-case")]
pub enum StringFormat {
    Date,
    DateTime,
    Password,
    Byte,
    Binary,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum NumberFormat {
    Float,
    Double,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum IntegerFormat {
    Int32,
    Int64,
}

const DATA_KEYS: &[&str] = &[
    "nullable", "readOnly", "writeOnly", "deprecated", "externalDocs", "example", "title", "description",
    "discriminator", "default",
];

impl<'de> Deserialize<'de> for Schema {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let all = serde_json::Map::<String, Value>::deserialize(d)?;
        let mut data = serde_json::Map::new();
        let mut kind = serde_json::Map::new();
        for (k, v) in all {
            if DATA_KEYS.contains(&k.as_str()) || k.starts_with("x-") {
                data.insert(k, v);
            } else {
                kind.insert(k, v);
            }
        }
        let schema_data = serde_json::from_value(Value::Object(data)).map_err(D::Error::custom)?;
        let keys: Vec<&str> = kind.keys().map(String::as_str).collect();
        let only = |allowed: &[&str]| keys.iter().all(|k| allowed.contains(k));
        let typ = kind.get("type").and_then(Value::as_str).map(str::to_string);
        let obj = Value::Object(kind.clone());
        fn de<T: serde::de::DeserializeOwned, E: serde::de::Error>(v: Value) -> Result<T, E> {
            serde_json::from_value(v).map_err(E::custom)
        }
        let t = match typ.as_deref() {
            Some("string") if only(&["type", "format", "pattern", "enum", "minLength", "maxLength"]) => {
                Some(Type::String(de::<_, D::Error>(obj.clone())?))
            }
            Some("number")
                if only(&["type", "format", "multipleOf", "exclusiveMinimum", "exclusiveMaximum", "minimum", "maximum", "enum"]) =>
            {
                Some(Type::Number(de::<_, D::Error>(obj.clone())?))
            }
            Some("integer")
                if only(&["type", "format", "multipleOf", "exclusiveMinimum", "exclusiveMaximum", "minimum", "maximum", "enum"]) =>
            {
                Some(Type::Integer(de::<_, D::Error>(obj.clone())?))
            }
            Some("object")
                if only(&["type", "properties", "required", "additionalProperties", "minProperties", "maxProperties"]) =>
            {
                Some(Type::Object(de::<_, D::Error>(obj.clone())?))
            }
            Some("array") if only(&["type", "items", "minItems", "maxItems", "uniqueItems"]) => {
                Some(Type::Array(de::<_, D::Error>(obj.clone())?))
            }
            Some("boolean") if only(&["type", "enum"]) => Some(Type::Boolean(de::<_, D::Error>(obj.clone())?)),
            _ => None,
        };
        let schema_kind = if let Some(t) = t {
            SchemaKind::Type(t)
        } else if keys == ["oneOf"] {
            SchemaKind::OneOf { one_of: de::<_, D::Error>(kind["oneOf"].clone())? }
        } else if keys == ["allOf"] {
            SchemaKind::AllOf { all_of: de::<_, D::Error>(kind["allOf"].clone())? }
        } else if keys == ["anyOf"] {
            SchemaKind::AnyOf { any_of: de::<_, D::Error>(kind["anyOf"].clone())? }
        } else if keys == ["not"] {
            SchemaKind::Not { not: de::<_, D::Error>(kind["not"].clone())? }
        } else {
            SchemaKind::Any(de::<_, D::Error>(obj)?)
        };
        Ok(Schema { schema_data, schema_kind })
    }
}
