//! Stand-in for `schemars` 0.8: the `schema` data model.
pub type Map<K, V> = std::collections::BTreeMap<K, V>;
pub type Set<T> = std::collections::BTreeSet<T>;

/// Everything is describable here: generated code only names the trait as a bound.
pub trait JsonSchema {}
impl<T: ?Sized> JsonSchema for T {}

pub mod schema {
    use super::{Map, Set};
    use serde::{Deserialize, Serialize};
    use serde_json::Value;

    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum Schema {
        Bool(bool),
        Object(SchemaObject),
    }

    impl Schema {
        pub fn into_object(self) -> SchemaObject {
            match self {
                Schema::Object(o) => o,
                Schema::Bool(true) => SchemaObject::default(),
                Schema::Bool(false) => SchemaObject {
                    subschemas: Some(Box::new(SubschemaValidation {
                        not: Some(Box::new(Schema::Object(Default::default()))),
                        ..Default::default()
                    })),
                    ..Default::default()
                },
            }
        }
    }

    impl From<SchemaObject> for Schema {
        fn from(o: SchemaObject) -> Self {
            Schema::Object(o)
        }
    }

    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    #[serde(untagged)]
    pub enum SingleOrVec<T> {
        Single(Box<T>),
        Vec(Vec<T>),
    }
    impl<T> From<T> for SingleOrVec<T> {
        fn from(t: T) -> Self {
            SingleOrVec::Single(Box::new(t))
        }
    }
    impl<T> From<Vec<T>> for SingleOrVec<T> {
        fn from(mut v: Vec<T>) -> Self {
            if v.len() == 1 {
                SingleOrVec::Single(Box::new(v.remove(0)))
            } else {
                SingleOrVec::Vec(v)
            }
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub enum InstanceType {
        Null,
        Boolean,
        Object,
        Array,
        Number,
        String,
        Integer,
    }

    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct SchemaObject {
        #[serde(flatten)]
        pub metadata: Option<Box<Metadata>>,
        #[serde(rename = "type", skip_serializing_if = "Option::is_none")]
        pub instance_type: Option<SingleOrVec<InstanceType>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub format: Option<String>,
        #[serde(rename = "enum", skip_serializing_if = "Option::is_none")]
        pub enum_values: Option<Vec<Value>>,
        #[serde(rename = "const", skip_serializing_if = "Option::is_none")]
        pub const_value: Option<Value>,
        #[serde(flatten)]
        pub subschemas: Option<Box<SubschemaValidation>>,
        #[serde(flatten)]
        pub number: Option<Box<NumberValidation>>,
        #[serde(flatten)]
        pub string: Option<Box<StringValidation>>,
        #[serde(flatten)]
        pub array: Option<Box<ArrayValidation>>,
        #[serde(flatten)]
        pub object: Option<Box<ObjectValidation>>,
        #[serde(rename = "$ref", skip_serializing_if = "Option::is_none")]
        pub reference: Option<String>,
        #[serde(flatten)]
        pub extensions: Map<String, Value>,
    }

    impl SchemaObject {
        pub fn new_ref(reference: String) -> Self {
            SchemaObject { reference: Some(reference), ..Default::default() }
        }
        pub fn is_ref(&self) -> bool {
            self.reference.is_some()
        }
        pub fn metadata(&mut self) -> &mut Metadata {
            self.metadata.get_or_insert_with(Default::default)
        }
        pub fn subschemas(&mut self) -> &mut SubschemaValidation {
            self.subschemas.get_or_insert_with(Default::default)
        }
        pub fn number(&mut self) -> &mut NumberValidation {
            self.number.get_or_insert_with(Default::default)
        }
        pub fn string(&mut self) -> &mut StringValidation {
            self.string.get_or_insert_with(Default::default)
        }
        pub fn array(&mut self) -> &mut ArrayValidation {
            self.array.get_or_insert_with(Default::default)
        }
        pub fn object(&mut self) -> &mut ObjectValidation {
            self.object.get_or_insert_with(Default::default)
        }
    }

    macro_rules! part {
        ($n:ident { $($f:ident : $t:ty),* $(,)? }) => {
            #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
            #[serde(rename_all = "camelCase", default)]
            pub struct $n { $(pub $f: $t),* }
        };
    }
    part!(Metadata {
        id: Option<String>,
        title: Option<String>,
        description: Option<String>,
        default: Option<Value>,
        deprecated: bool,
        read_only: bool,
        write_only: bool,
        examples: Vec<Value>,
    });
    part!(SubschemaValidation {
        all_of: Option<Vec<Schema>>,
        any_of: Option<Vec<Schema>>,
        one_of: Option<Vec<Schema>>,
        not: Option<Box<Schema>>,
        if_schema: Option<Box<Schema>>,
        then_schema: Option<Box<Schema>>,
        else_schema: Option<Box<Schema>>,
    });
    part!(NumberValidation {
        multiple_of: Option<f64>,
        maximum: Option<f64>,
        exclusive_maximum: Option<f64>,
        minimum: Option<f64>,
        exclusive_minimum: Option<f64>,
    });
    part!(StringValidation {
        max_length: Option<u32>,
        min_length: Option<u32>,
        pattern: Option<String>,
    });
    part!(ArrayValidation {
        items: Option<SingleOrVec<Schema>>,
        additional_items: Option<Box<Schema>>,
        max_items: Option<u32>,
        min_items: Option<u32>,
        unique_items: Option<bool>,
        contains: Option<Box<Schema>>,
    });
    part!(ObjectValidation {
        max_properties: Option<u32>,
        min_properties: Option<u32>,
        required: Set<String>,
        properties: Map<String, Schema>,
        pattern_properties: Map<String, Schema>,
        additional_properties: Option<Box<Schema>>,
        property_names: Option<Box<Schema>>,
    });
}
