# [allow (unused_imports)] pub use progenitor_client :: {
    ByteStream , Error , ResponseValue
} ;
# [allow (unused_imports)] use progenitor_client :: {
    encode_path , RequestBuilderExt
} ;
# [doc = r" Types used as operation parameters and responses."] # [allow (clippy :: all)] pub mod types {
    # [doc = r" Error types."] pub mod error {
        # [doc = r" Error from a `TryFrom` or `FromStr` implementation."] pub struct ConversionError (:: std :: borrow :: Cow < 'static , str >) ;
        impl :: std :: error :: Error for ConversionError {

        }
        impl :: std :: fmt :: Display for ConversionError {
            fn fmt (& self , f : & mut :: std :: fmt :: Formatter < '_ >) -> Result < () , :: std :: fmt :: Error > {
                :: std :: fmt :: Display :: fmt (& self . 0 , f)
            }

        }
        impl :: std :: fmt :: Debug for ConversionError {
            fn fmt (& self , f : & mut :: std :: fmt :: Formatter < '_ >) -> Result < () , :: std :: fmt :: Error > {
                :: std :: fmt :: Debug :: fmt (& self . 0 , f)
            }

        }
        impl From < & 'static str > for ConversionError {
            fn from (value : & 'static str) -> Self {
                Self (value . into ())
            }

        }
        impl From < String > for ConversionError {
            fn from (value : String) -> Self {
                Self (value . into ())
            }

        }

    }
    # [doc = "`Any`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] # [serde (transparent)] pub struct Any (pub :: serde_json :: Value) ;
    impl :: std :: ops :: Deref for Any {
        type Target = :: serde_json :: Value ;
        fn deref (& self) -> & :: serde_json :: Value {
            & self . 0
        }

    }
    impl :: std :: convert :: From < Any > for :: serde_json :: Value {
        fn from (value : Any) -> Self {
            value . 0
        }

    }
    impl :: std :: convert :: From < & Any > for Any {
        fn from (value : & Any) -> Self {
            value . clone ()
        }

    }
    impl :: std :: convert :: From < :: serde_json :: Value > for Any {
        fn from (value : :: serde_json :: Value) -> Self {
            Self (value)
        }

    }
    # [doc = "`Form`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct Form {
        pub a : :: std :: string :: String , pub count : u32 , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub flag : :: std :: option :: Option < bool > , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub kind : :: std :: option :: Option < Kind > , # [serde (rename = "odd name&=" , default , skip_serializing_if = "::std::option::Option::is_none")] pub odd_name : :: std :: option :: Option < :: std :: string :: String >
    }
    impl :: std :: convert :: From < & Form > for Form {
        fn from (value : & Form) -> Self {
            value . clone ()
        }

    }
    impl Form {
        pub fn builder () -> builder :: Form {
            Default :: default ()
        }

    }
    # [doc = "`Inner`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct Inner {
        pub a : i32 , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub b : :: std :: option :: Option < bool > , # [serde (default , skip_serializing_if = "::std::vec::Vec::is_empty")] pub more : :: std :: vec :: Vec < Inner >
    }
    impl :: std :: convert :: From < & Inner > for Inner {
        fn from (value : & Inner) -> Self {
            value . clone ()
        }

    }
    impl Inner {
        pub fn builder () -> builder :: Inner {
            Default :: default ()
        }

    }
    # [doc = "`Kind`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Copy , Debug , Eq , Hash , Ord , PartialEq , PartialOrd)] pub enum Kind {
        # [serde (rename = "alpha")] Alpha , # [serde (rename = "be ta")] BeTa , # [serde (rename = "ga/mma")] GaMma ,
    }
    impl :: std :: convert :: From < & Self > for Kind {
        fn from (value : & Kind) -> Self {
            value . clone ()
        }

    }
    impl :: std :: fmt :: Display for Kind {
        fn fmt (& self , f : & mut :: std :: fmt :: Formatter < '_ >) -> :: std :: fmt :: Result {
            match * self {
                Self :: Alpha => f . write_str ("alpha") , Self :: BeTa => f . write_str ("be ta") , Self :: GaMma => f . write_str ("ga/mma") ,
            }

        }

    }
    impl :: std :: str :: FromStr for Kind {
        type Err = self :: error :: ConversionError ;
        fn from_str (value : & str) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            match value {
                "alpha" => Ok (Self :: Alpha) , "be ta" => Ok (Self :: BeTa) , "ga/mma" => Ok (Self :: GaMma) , _ => Err ("invalid value" . into ()) ,
            }

        }

    }
    impl :: std :: convert :: TryFrom < & str > for Kind {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : & str) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    impl :: std :: convert :: TryFrom < & :: std :: string :: String > for Kind {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : & :: std :: string :: String) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    impl :: std :: convert :: TryFrom < :: std :: string :: String > for Kind {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : :: std :: string :: String) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    # [doc = "`Name`"] # [derive (:: serde :: Serialize , Clone , Debug , Eq , Hash , Ord , PartialEq , PartialOrd)] # [serde (transparent)] pub struct Name (:: std :: string :: String) ;
    impl :: std :: ops :: Deref for Name {
        type Target = :: std :: string :: String ;
        fn deref (& self) -> & :: std :: string :: String {
            & self . 0
        }

    }
    impl :: std :: convert :: From < Name > for :: std :: string :: String {
        fn from (value : Name) -> Self {
            value . 0
        }

    }
    impl :: std :: convert :: From < & Name > for Name {
        fn from (value : & Name) -> Self {
            value . clone ()
        }

    }
    impl :: std :: str :: FromStr for Name {
        type Err = self :: error :: ConversionError ;
        fn from_str (value : & str) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            if value . chars () . count () > 63usize {
                return Err ("longer than 63 characters" . into ()) ;

            }
            if value . chars () . count () < 1usize {
                return Err ("shorter than 1 characters" . into ()) ;

            }
            Ok (Self (value . to_string ()))
        }

    }
    impl :: std :: convert :: TryFrom < & str > for Name {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : & str) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    impl :: std :: convert :: TryFrom < & :: std :: string :: String > for Name {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : & :: std :: string :: String) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    impl :: std :: convert :: TryFrom < :: std :: string :: String > for Name {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : :: std :: string :: String) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    impl :: std :: fmt :: Display for Name {
        fn fmt (& self , f : & mut :: std :: fmt :: Formatter < '_ >) -> :: std :: fmt :: Result {
            self . 0 . fmt (f)
        }

    }
    impl < 'de > :: serde :: Deserialize < 'de > for Name {
        fn deserialize < D > (deserializer : D) -> :: std :: result :: Result < Self , D :: Error > where D : :: serde :: Deserializer < 'de > {
            :: std :: string :: String :: deserialize (deserializer) ? . parse () . map_err (| e : self :: error :: ConversionError | {
                < D :: Error as :: serde :: de :: Error > :: custom (e . to_string ())
            })
        }

    }
    # [doc = "`OptJsonResponse`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct OptJsonResponse {
        pub a : :: std :: string :: String
    }
    impl :: std :: convert :: From < & OptJsonResponse > for OptJsonResponse {
        fn from (value : & OptJsonResponse) -> Self {
            value . clone ()
        }

    }
    impl OptJsonResponse {
        pub fn builder () -> builder :: OptJsonResponse {
            Default :: default ()
        }

    }
    # [doc = "`Patch`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct Patch {
        # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub level : :: std :: option :: Option < i64 > , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub name : :: std :: option :: Option < :: std :: string :: String > , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub on : :: std :: option :: Option < bool >
    }
    impl :: std :: convert :: From < & Patch > for Patch {
        fn from (value : & Patch) -> Self {
            value . clone ()
        }

    }
    impl :: std :: default :: Default for Patch {
        fn default () -> Self {
            Self {
                level : Default :: default () , name : Default :: default () , on : Default :: default ()
            }

        }

    }
    impl Patch {
        pub fn builder () -> builder :: Patch {
            Default :: default ()
        }

    }
    # [doc = "A thing"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct Thing {
        pub id : u64 , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub inner : :: std :: option :: Option < Inner > , pub kind : Kind , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub made : :: std :: option :: Option < :: chrono :: DateTime <:: chrono :: offset :: Utc > > , pub name : :: std :: string :: String , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub note : :: std :: option :: Option < :: std :: string :: String > , pub tags : :: std :: vec :: Vec < :: std :: string :: String > , # [serde (rename = "type" , default , skip_serializing_if = "::std::option::Option::is_none")] pub type_ : :: std :: option :: Option < i32 > , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub weight : :: std :: option :: Option < f64 >
    }
    impl :: std :: convert :: From < & Thing > for Thing {
        fn from (value : & Thing) -> Self {
            value . clone ()
        }

    }
    impl Thing {
        pub fn builder () -> builder :: Thing {
            Default :: default ()
        }

    }
    # [doc = "`ThingError`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct ThingError {
        pub code : i32 , pub message : :: std :: string :: String
    }
    impl :: std :: convert :: From < & ThingError > for ThingError {
        fn from (value : & ThingError) -> Self {
            value . clone ()
        }

    }
    impl ThingError {
        pub fn builder () -> builder :: ThingError {
            Default :: default ()
        }

    }
    # [doc = "`ThingPage`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct ThingPage {
        pub items : :: std :: vec :: Vec < Thing > , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub next_page : :: std :: option :: Option < :: std :: string :: String >
    }
    impl :: std :: convert :: From < & ThingPage > for ThingPage {
        fn from (value : & ThingPage) -> Self {
            value . clone ()
        }

    }
    impl ThingPage {
        pub fn builder () -> builder :: ThingPage {
            Default :: default ()
        }

    }
    # [doc = r" Types for composing complex structures."] pub mod builder {
        # [derive (Clone , Debug)] pub struct Form {
            a : :: std :: result :: Result < :: std :: string :: String , :: std :: string :: String > , count : :: std :: result :: Result < u32 , :: std :: string :: String > , flag : :: std :: result :: Result < :: std :: option :: Option < bool > , :: std :: string :: String > , kind : :: std :: result :: Result < :: std :: option :: Option < super :: Kind > , :: std :: string :: String > , odd_name : :: std :: result :: Result < :: std :: option :: Option < :: std :: string :: String > , :: std :: string :: String > ,
        }
        impl :: std :: default :: Default for Form {
            fn default () -> Self {
                Self {
                    a : Err ("no value supplied for a" . to_string ()) , count : Err ("no value supplied for count" . to_string ()) , flag : Ok (Default :: default ()) , kind : Ok (Default :: default ()) , odd_name : Ok (Default :: default ())
                }

            }

        }
        impl Form {
            pub fn a < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: string :: String > , T :: Error : :: std :: fmt :: Display , {
                self . a = value . try_into () . map_err (| e | format ! ("error converting supplied value for a: {}" , e)) ;
                self
            }
            pub fn count < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < u32 > , T :: Error : :: std :: fmt :: Display , {
                self . count = value . try_into () . map_err (| e | format ! ("error converting supplied value for count: {}" , e)) ;
                self
            }
            pub fn flag < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < bool > > , T :: Error : :: std :: fmt :: Display , {
                self . flag = value . try_into () . map_err (| e | format ! ("error converting supplied value for flag: {}" , e)) ;
                self
            }
            pub fn kind < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < super :: Kind > > , T :: Error : :: std :: fmt :: Display , {
                self . kind = value . try_into () . map_err (| e | format ! ("error converting supplied value for kind: {}" , e)) ;
                self
            }
            pub fn odd_name < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < :: std :: string :: String > > , T :: Error : :: std :: fmt :: Display , {
                self . odd_name = value . try_into () . map_err (| e | format ! ("error converting supplied value for odd_name: {}" , e)) ;
                self
            }

        }
        impl :: std :: convert :: TryFrom < Form > for super :: Form {
            type Error = super :: error :: ConversionError ;
            fn try_from (value : Form) -> :: std :: result :: Result < Self , super :: error :: ConversionError > {
                Ok (Self {
                    a : value . a ? , count : value . count ? , flag : value . flag ? , kind : value . kind ? , odd_name : value . odd_name ? ,
                })
            }

        }
        impl :: std :: convert :: From < super :: Form > for Form {
            fn from (value : super :: Form) -> Self {
                Self {
                    a : Ok (value . a) , count : Ok (value . count) , flag : Ok (value . flag) , kind : Ok (value . kind) , odd_name : Ok (value . odd_name) ,
                }

            }

        }
        # [derive (Clone , Debug)] pub struct Inner {
            a : :: std :: result :: Result < i32 , :: std :: string :: String > , b : :: std :: result :: Result < :: std :: option :: Option < bool > , :: std :: string :: String > , more : :: std :: result :: Result < :: std :: vec :: Vec < super :: Inner > , :: std :: string :: String > ,
        }
        impl :: std :: default :: Default for Inner {
            fn default () -> Self {
                Self {
                    a : Err ("no value supplied for a" . to_string ()) , b : Ok (Default :: default ()) , more : Ok (Default :: default ())
                }

            }

        }
        impl Inner {
            pub fn a < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < i32 > , T :: Error : :: std :: fmt :: Display , {
                self . a = value . try_into () . map_err (| e | format ! ("error converting supplied value for a: {}" , e)) ;
                self
            }
            pub fn b < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < bool > > , T :: Error : :: std :: fmt :: Display , {
                self . b = value . try_into () . map_err (| e | format ! ("error converting supplied value for b: {}" , e)) ;
                self
            }
            pub fn more < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: vec :: Vec < super :: Inner > > , T :: Error : :: std :: fmt :: Display , {
                self . more = value . try_into () . map_err (| e | format ! ("error converting supplied value for more: {}" , e)) ;
                self
            }

        }
        impl :: std :: convert :: TryFrom < Inner > for super :: Inner {
            type Error = super :: error :: ConversionError ;
            fn try_from (value : Inner) -> :: std :: result :: Result < Self , super :: error :: ConversionError > {
                Ok (Self {
                    a : value . a ? , b : value . b ? , more : value . more ? ,
                })
            }

        }
        impl :: std :: convert :: From < super :: Inner > for Inner {
            fn from (value : super :: Inner) -> Self {
                Self {
                    a : Ok (value . a) , b : Ok (value . b) , more : Ok (value . more) ,
                }

            }

        }
        # [derive (Clone , Debug)] pub struct OptJsonResponse {
            a : :: std :: result :: Result < :: std :: string :: String , :: std :: string :: String > ,
        }
        impl :: std :: default :: Default for OptJsonResponse {
            fn default () -> Self {
                Self {
                    a : Err ("no value supplied for a" . to_string ())
                }

            }

        }
        impl OptJsonResponse {
            pub fn a < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: string :: String > , T :: Error : :: std :: fmt :: Display , {
                self . a = value . try_into () . map_err (| e | format ! ("error converting supplied value for a: {}" , e)) ;
                self
            }

        }
        impl :: std :: convert :: TryFrom < OptJsonResponse > for super :: OptJsonResponse {
            type Error = super :: error :: ConversionError ;
            fn try_from (value : OptJsonResponse) -> :: std :: result :: Result < Self , super :: error :: ConversionError > {
                Ok (Self {
                    a : value . a ? ,
                })
            }

        }
        impl :: std :: convert :: From < super :: OptJsonResponse > for OptJsonResponse {
            fn from (value : super :: OptJsonResponse) -> Self {
                Self {
                    a : Ok (value . a) ,
                }

            }

        }
        # [derive (Clone , Debug)] pub struct Patch {
            level : :: std :: result :: Result < :: std :: option :: Option < i64 > , :: std :: string :: String > , name : :: std :: result :: Result < :: std :: option :: Option < :: std :: string :: String > , :: std :: string :: String > , on : :: std :: result :: Result < :: std :: option :: Option < bool > , :: std :: string :: String > ,
        }
        impl :: std :: default :: Default for Patch {
            fn default () -> Self {
                Self {
                    level : Ok (Default :: default ()) , name : Ok (Default :: default ()) , on : Ok (Default :: default ())
                }

            }

        }
        impl Patch {
            pub fn level < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < i64 > > , T :: Error : :: std :: fmt :: Display , {
                self . level = value . try_into () . map_err (| e | format ! ("error converting supplied value for level: {}" , e)) ;
                self
            }
            pub fn name < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < :: std :: string :: String > > , T :: Error : :: std :: fmt :: Display , {
                self . name = value . try_into () . map_err (| e | format ! ("error converting supplied value for name: {}" , e)) ;
                self
            }
            pub fn on < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < bool > > , T :: Error : :: std :: fmt :: Display , {
                self . on = value . try_into () . map_err (| e | format ! ("error converting supplied value for on: {}" , e)) ;
                self
            }

        }
        impl :: std :: convert :: TryFrom < Patch > for super :: Patch {
            type Error = super :: error :: ConversionError ;
            fn try_from (value : Patch) -> :: std :: result :: Result < Self , super :: error :: ConversionError > {
                Ok (Self {
                    level : value . level ? , name : value . name ? , on : value . on ? ,
                })
            }

        }
        impl :: std :: convert :: From < super :: Patch > for Patch {
            fn from (value : super :: Patch) -> Self {
                Self {
                    level : Ok (value . level) , name : Ok (value . name) , on : Ok (value . on) ,
                }

            }

        }
        # [derive (Clone , Debug)] pub struct Thing {
            id : :: std :: result :: Result < u64 , :: std :: string :: String > , inner : :: std :: result :: Result < :: std :: option :: Option < super :: Inner > , :: std :: string :: String > , kind : :: std :: result :: Result < super :: Kind , :: std :: string :: String > , made : :: std :: result :: Result < :: std :: option :: Option < :: chrono :: DateTime <:: chrono :: offset :: Utc > > , :: std :: string :: String > , name : :: std :: result :: Result < :: std :: string :: String , :: std :: string :: String > , note : :: std :: result :: Result < :: std :: option :: Option < :: std :: string :: String > , :: std :: string :: String > , tags : :: std :: result :: Result < :: std :: vec :: Vec < :: std :: string :: String > , :: std :: string :: String > , type_ : :: std :: result :: Result < :: std :: option :: Option < i32 > , :: std :: string :: String > , weight : :: std :: result :: Result < :: std :: option :: Option < f64 > , :: std :: string :: String > ,
        }
        impl :: std :: default :: Default for Thing {
            fn default () -> Self {
                Self {
                    id : Err ("no value supplied for id" . to_string ()) , inner : Ok (Default :: default ()) , kind : Err ("no value supplied for kind" . to_string ()) , made : Ok (Default :: default ()) , name : Err ("no value supplied for name" . to_string ()) , note : Ok (Default :: default ()) , tags : Err ("no value supplied for tags" . to_string ()) , type_ : Ok (Default :: default ()) , weight : Ok (Default :: default ())
                }

            }

        }
        impl Thing {
            pub fn id < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < u64 > , T :: Error : :: std :: fmt :: Display , {
                self . id = value . try_into () . map_err (| e | format ! ("error converting supplied value for id: {}" , e)) ;
                self
            }
            pub fn inner < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < super :: Inner > > , T :: Error : :: std :: fmt :: Display , {
                self . inner = value . try_into () . map_err (| e | format ! ("error converting supplied value for inner: {}" , e)) ;
                self
            }
            pub fn kind < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < super :: Kind > , T :: Error : :: std :: fmt :: Display , {
                self . kind = value . try_into () . map_err (| e | format ! ("error converting supplied value for kind: {}" , e)) ;
                self
            }
            pub fn made < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < :: chrono :: DateTime <:: chrono :: offset :: Utc > > > , T :: Error : :: std :: fmt :: Display , {
                self . made = value . try_into () . map_err (| e | format ! ("error converting supplied value for made: {}" , e)) ;
                self
            }
            pub fn name < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: string :: String > , T :: Error : :: std :: fmt :: Display , {
                self . name = value . try_into () . map_err (| e | format ! ("error converting supplied value for name: {}" , e)) ;
                self
            }
            pub fn note < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < :: std :: string :: String > > , T :: Error : :: std :: fmt :: Display , {
                self . note = value . try_into () . map_err (| e | format ! ("error converting supplied value for note: {}" , e)) ;
                self
            }
            pub fn tags < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: vec :: Vec < :: std :: string :: String > > , T :: Error : :: std :: fmt :: Display , {
                self . tags = value . try_into () . map_err (| e | format ! ("error converting supplied value for tags: {}" , e)) ;
                self
            }
            pub fn type_ < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < i32 > > , T :: Error : :: std :: fmt :: Display , {
                self . type_ = value . try_into () . map_err (| e | format ! ("error converting supplied value for type_: {}" , e)) ;
                self
            }
            pub fn weight < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < f64 > > , T :: Error : :: std :: fmt :: Display , {
                self . weight = value . try_into () . map_err (| e | format ! ("error converting supplied value for weight: {}" , e)) ;
                self
            }

        }
        impl :: std :: convert :: TryFrom < Thing > for super :: Thing {
            type Error = super :: error :: ConversionError ;
            fn try_from (value : Thing) -> :: std :: result :: Result < Self , super :: error :: ConversionError > {
                Ok (Self {
                    id : value . id ? , inner : value . inner ? , kind : value . kind ? , made : value . made ? , name : value . name ? , note : value . note ? , tags : value . tags ? , type_ : value . type_ ? , weight : value . weight ? ,
                })
            }

        }
        impl :: std :: convert :: From < super :: Thing > for Thing {
            fn from (value : super :: Thing) -> Self {
                Self {
                    id : Ok (value . id) , inner : Ok (value . inner) , kind : Ok (value . kind) , made : Ok (value . made) , name : Ok (value . name) , note : Ok (value . note) , tags : Ok (value . tags) , type_ : Ok (value . type_) , weight : Ok (value . weight) ,
                }

            }

        }
        # [derive (Clone , Debug)] pub struct ThingError {
            code : :: std :: result :: Result < i32 , :: std :: string :: String > , message : :: std :: result :: Result < :: std :: string :: String , :: std :: string :: String > ,
        }
        impl :: std :: default :: Default for ThingError {
            fn default () -> Self {
                Self {
                    code : Err ("no value supplied for code" . to_string ()) , message : Err ("no value supplied for message" . to_string ())
                }

            }

        }
        impl ThingError {
            pub fn code < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < i32 > , T :: Error : :: std :: fmt :: Display , {
                self . code = value . try_into () . map_err (| e | format ! ("error converting supplied value for code: {}" , e)) ;
                self
            }
            pub fn message < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: string :: String > , T :: Error : :: std :: fmt :: Display , {
                self . message = value . try_into () . map_err (| e | format ! ("error converting supplied value for message: {}" , e)) ;
                self
            }

        }
        impl :: std :: convert :: TryFrom < ThingError > for super :: ThingError {
            type Error = super :: error :: ConversionError ;
            fn try_from (value : ThingError) -> :: std :: result :: Result < Self , super :: error :: ConversionError > {
                Ok (Self {
                    code : value . code ? , message : value . message ? ,
                })
            }

        }
        impl :: std :: convert :: From < super :: ThingError > for ThingError {
            fn from (value : super :: ThingError) -> Self {
                Self {
                    code : Ok (value . code) , message : Ok (value . message) ,
                }

            }

        }
        # [derive (Clone , Debug)] pub struct ThingPage {
            items : :: std :: result :: Result < :: std :: vec :: Vec < super :: Thing > , :: std :: string :: String > , next_page : :: std :: result :: Result < :: std :: option :: Option < :: std :: string :: String > , :: std :: string :: String > ,
        }
        impl :: std :: default :: Default for ThingPage {
            fn default () -> Self {
                Self {
                    items : Err ("no value supplied for items" . to_string ()) , next_page : Ok (Default :: default ())
                }

            }

        }
        impl ThingPage {
            pub fn items < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: vec :: Vec < super :: Thing > > , T :: Error : :: std :: fmt :: Display , {
                self . items = value . try_into () . map_err (| e | format ! ("error converting supplied value for items: {}" , e)) ;
                self
            }
            pub fn next_page < T > (mut self , value : T) -> Self where T : :: std :: convert :: TryInto < :: std :: option :: Option < :: std :: string :: String > > , T :: Error : :: std :: fmt :: Display , {
                self . next_page = value . try_into () . map_err (| e | format ! ("error converting supplied value for next_page: {}" , e)) ;
                self
            }

        }
        impl :: std :: convert :: TryFrom < ThingPage > for super :: ThingPage {
            type Error = super :: error :: ConversionError ;
            fn try_from (value : ThingPage) -> :: std :: result :: Result < Self , super :: error :: ConversionError > {
                Ok (Self {
                    items : value . items ? , next_page : value . next_page ? ,
                })
            }

        }
        impl :: std :: convert :: From < super :: ThingPage > for ThingPage {
            fn from (value : super :: ThingPage) -> Self {
                Self {
                    items : Ok (value . items) , next_page : Ok (value . next_page) ,
                }

            }

        }

    }

}
# [derive (Clone , Debug)] # [doc = "Client for Simulated service\n\nEverything a generated client can do\n\nVersion: 1.4.2-sim"] pub struct Client {
    pub (crate) baseurl : String , pub (crate) client : reqwest :: Client ,
}
impl Client {
    # [doc = r" Create a new client."] # [doc = r""] # [doc = r" `baseurl` is the base URL provided to the internal"] # [doc = r" `reqwest::Client`, and should include a scheme and hostname,"] # [doc = r" as well as port and a path stem if applicable."] pub fn new (baseurl : & str ,) -> Self {
        # [cfg (not (target_arch = "wasm32"))] let client = {
            let dur = std :: time :: Duration :: from_secs (15) ;
            reqwest :: ClientBuilder :: new () . connect_timeout (dur) . timeout (dur)
        } ;
        # [cfg (target_arch = "wasm32")] let client = reqwest :: ClientBuilder :: new () ;
        Self :: new_with_client (baseurl , client . build () . unwrap () ,)
    }
    # [doc = r" Construct a new client with an existing `reqwest::Client`,"] # [doc = r" allowing more control over its configuration."] # [doc = r""] # [doc = r" `baseurl` is the base URL provided to the internal"] # [doc = r" `reqwest::Client`, and should include a scheme and hostname,"] # [doc = r" as well as port and a path stem if applicable."] pub fn new_with_client (baseurl : & str , client : reqwest :: Client ,) -> Self {
        Self {
            baseurl : baseurl . to_string () , client ,
        }

    }
    # [doc = r" Get the base URL to which requests are made."] pub fn baseurl (& self) -> & String {
        & self . baseurl
    }
    # [doc = r" Get the internal `reqwest::Client` used to make requests."] pub fn client (& self) -> & reqwest :: Client {
        & self . client
    }
    # [doc = r" Get the version of this API."] # [doc = r""] # [doc = r" This string is pulled directly from the source OpenAPI"] # [doc = r" document and may be in any format the API selects."] pub fn api_version (& self) -> & 'static str {
        "1.4.2-sim"
    }

}
impl Client {
    # [doc = "Sends a `GET` request to `/things/{id}`\n\n```ignore\nlet response = client.thing_get()\n    .id(id)\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn thing_get (& self) -> builder :: ThingGet {
        builder :: ThingGet :: new (self)
    }
    # [doc = "Sends a `DELETE` request to `/things/{id}`\n\n```ignore\nlet response = client.thing_delete()\n    .id(id)\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn thing_delete (& self) -> builder :: ThingDelete {
        builder :: ThingDelete :: new (self)
    }
    # [doc = "Sends a `HEAD` request to `/things/{id}`\n\n```ignore\nlet response = client.thing_head()\n    .id(id)\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn thing_head (& self) -> builder :: ThingHead {
        builder :: ThingHead :: new (self)
    }
    # [doc = "Sends a `PATCH` request to `/things/{id}`\n\n```ignore\nlet response = client.thing_patch()\n    .id(id)\n    .x_op(x_op)\n    .body(body)\n    .send()\n    .await;\n```"] pub fn thing_patch (& self) -> builder :: ThingPatch {
        builder :: ThingPatch :: new (self)
    }
    # [doc = "Sends a `GET` request to `/things`\n\n```ignore\nlet response = client.thing_list()\n    .filter(filter)\n    .limit(limit)\n    .page_token(page_token)\n    .sort(sort)\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn thing_list (& self) -> builder :: ThingList {
        builder :: ThingList :: new (self)
    }
    # [doc = "Sends a `POST` request to `/things`\n\n```ignore\nlet response = client.thing_create()\n    .x_op(x_op)\n    .body(body)\n    .send()\n    .await;\n```"] pub fn thing_create (& self) -> builder :: ThingCreate {
        builder :: ThingCreate :: new (self)
    }
    # [doc = "Sends a `PUT` request to `/v1/{project}/things/{id}/parts/{part_no}`\n\n```ignore\nlet response = client.thing_put()\n    .project(project)\n    .id(id)\n    .part_no(part_no)\n    .x_op(x_op)\n    .body(body)\n    .send()\n    .await;\n```"] pub fn thing_put (& self) -> builder :: ThingPut {
        builder :: ThingPut :: new (self)
    }
    # [doc = "Sends a `GET` request to `/projects/{project}/things/{kind}`\n\n```ignore\nlet response = client.proj_list()\n    .project(project)\n    .kind(kind)\n    .limit(limit)\n    .page_token(page_token)\n    .selector(selector)\n    .x_op(x_op)\n    .x_scope(x_scope)\n    .send()\n    .await;\n```"] pub fn proj_list (& self) -> builder :: ProjList {
        builder :: ProjList :: new (self)
    }
    # [doc = "Sends a `GET` request to `/raw/{name}`\n\n```ignore\nlet response = client.raw_get()\n    .name(name)\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn raw_get (& self) -> builder :: RawGet {
        builder :: RawGet :: new (self)
    }
    # [doc = "Sends a `GET` request to `/rawdef`\n\n```ignore\nlet response = client.raw_default()\n    .q(q)\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn raw_default (& self) -> builder :: RawDefault {
        builder :: RawDefault :: new (self)
    }
    # [doc = "Sends a `PUT` request to `/up/octet/{name}`\n\n```ignore\nlet response = client.upload_octet()\n    .name(name)\n    .x_op(x_op)\n    .body(body)\n    .send()\n    .await;\n```"] pub fn upload_octet (& self) -> builder :: UploadOctet {
        builder :: UploadOctet :: new (self)
    }
    # [doc = "Sends a `PUT` request to `/up/text`\n\n```ignore\nlet response = client.upload_text()\n    .mode(mode)\n    .x_op(x_op)\n    .body(body)\n    .send()\n    .await;\n```"] pub fn upload_text (& self) -> builder :: UploadText {
        builder :: UploadText :: new (self)
    }
    # [doc = "Sends a `POST` request to `/up/md`\n\n```ignore\nlet response = client.upload_md()\n    .x_op(x_op)\n    .body(body)\n    .send()\n    .await;\n```"] pub fn upload_md (& self) -> builder :: UploadMd {
        builder :: UploadMd :: new (self)
    }
    # [doc = "Sends a `POST` request to `/form`\n\n```ignore\nlet response = client.form_post()\n    .x_op(x_op)\n    .body(body)\n    .send()\n    .await;\n```"] pub fn form_post (& self) -> builder :: FormPost {
        builder :: FormPost :: new (self)
    }
    # [doc = "Sends a `GET` request to `/search/{when}`\n\n```ignore\nlet response = client.search()\n    .when(when)\n    .a_b_c_d(a_b_c_d)\n    .b(b)\n    .client(client)\n    .f(f)\n    .id(id)\n    .kind(kind)\n    .kinds(kinds)\n    .n(n)\n    .name(name)\n    .nums(nums)\n    .q(q)\n    .request(request)\n    .self_(self_)\n    .tag(tag)\n    .type_(type_)\n    .u(u)\n    .url(url)\n    .x_kind(x_kind)\n    .x_num(x_num)\n    .x_op(x_op)\n    .x_text(x_text)\n    .send()\n    .await;\n```"] pub fn search (& self) -> builder :: Search {
        builder :: Search :: new (self)
    }
    # [doc = "Sends a `GET` request to `/ws/{id}`\n\n```ignore\nlet response = client.channel()\n    .id(id)\n    .mode(mode)\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn channel (& self) -> builder :: Channel {
        builder :: Channel :: new (self)
    }
    # [doc = "Sends a `GET` request to `/wst/{id}`\n\n```ignore\nlet response = client.channel_typed()\n    .id(id)\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn channel_typed (& self) -> builder :: ChannelTyped {
        builder :: ChannelTyped :: new (self)
    }
    # [doc = "Sends a `POST` request to `/nothing/{a}-{b}.x`\n\n```ignore\nlet response = client.do_nothing()\n    .a(a)\n    .b(b)\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn do_nothing (& self) -> builder :: DoNothing {
        builder :: DoNothing :: new (self)
    }
    # [doc = "Sends a `GET` request to `/onlyerr`\n\n```ignore\nlet response = client.only_errors()\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn only_errors (& self) -> builder :: OnlyErrors {
        builder :: OnlyErrors :: new (self)
    }
    # [doc = "Sends a `GET` request to `/opt`\n\n```ignore\nlet response = client.opt_json()\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn opt_json (& self) -> builder :: OptJson {
        builder :: OptJson :: new (self)
    }
    # [doc = "Sends a `GET` request to `/scalar`\n\n```ignore\nlet response = client.scalar_json()\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn scalar_json (& self) -> builder :: ScalarJson {
        builder :: ScalarJson :: new (self)
    }
    # [doc = "Sends a `GET` request to `/any`\n\n```ignore\nlet response = client.any_json()\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn any_json (& self) -> builder :: AnyJson {
        builder :: AnyJson :: new (self)
    }
    # [doc = "Sends a `GET` request to `/map`\n\n```ignore\nlet response = client.map_json()\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn map_json (& self) -> builder :: MapJson {
        builder :: MapJson :: new (self)
    }
    # [doc = "Sends a `GET` request to `/`\n\n```ignore\nlet response = client.root_get()\n    .x_op(x_op)\n    .send()\n    .await;\n```"] pub fn root_get (& self) -> builder :: RootGet {
        builder :: RootGet :: new (self)
    }

}
# [doc = r" Types for composing operation parameters."] # [allow (clippy :: all)] pub mod builder {
    use super :: types ;
    # [allow (unused_imports)] use super :: {
        encode_path , ByteStream , Error , RequestBuilderExt , ResponseValue ,
    } ;
    # [doc = "Builder for [`Client::thing_get`]\n\n[`Client::thing_get`]: super::Client::thing_get"] # [derive (Debug , Clone)] pub struct ThingGet < 'a > {
        client : & 'a super :: Client , id : Result < :: std :: string :: String , String > , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > ThingGet < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , id : Err ("id was not initialized" . to_string ()) , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn id < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . id = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for id failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/things/{id}`"] pub async fn send (self) -> Result < ResponseValue < types :: Thing > , Error < types :: ThingError > , > {
            let Self {
                client , id , x_op ,
            }
            = self ;
            let id = id . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/things/{}" , client . baseurl , encode_path (& id . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200u16 => {
                    ResponseValue :: from_response (response) . await
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                500u16 ..= 599u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::thing_delete`]\n\n[`Client::thing_delete`]: super::Client::thing_delete"] # [derive (Debug , Clone)] pub struct ThingDelete < 'a > {
        client : & 'a super :: Client , id : Result < :: std :: string :: String , String > , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > ThingDelete < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , id : Err ("id was not initialized" . to_string ()) , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn id < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . id = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for id failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `DELETE` request to `/things/{id}`"] pub async fn send (self) -> Result < ResponseValue < () > , Error < types :: ThingError > , > {
            let Self {
                client , id , x_op ,
            }
            = self ;
            let id = id . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/things/{}" , client . baseurl , encode_path (& id . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . delete (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                204u16 => {
                    Ok (ResponseValue :: empty (response))
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                500u16 ..= 599u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::thing_head`]\n\n[`Client::thing_head`]: super::Client::thing_head"] # [derive (Debug , Clone)] pub struct ThingHead < 'a > {
        client : & 'a super :: Client , id : Result < :: std :: string :: String , String > , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > ThingHead < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , id : Err ("id was not initialized" . to_string ()) , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn id < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . id = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for id failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `HEAD` request to `/things/{id}`"] pub async fn send (self) -> Result < ResponseValue < () > , Error < () > , > {
            let Self {
                client , id , x_op ,
            }
            = self ;
            let id = id . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/things/{}" , client . baseurl , encode_path (& id . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . head (url) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200u16 => {
                    Ok (ResponseValue :: empty (response))
                }
                404u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: empty (response)))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::thing_patch`]\n\n[`Client::thing_patch`]: super::Client::thing_patch"] # [derive (Debug , Clone)] pub struct ThingPatch < 'a > {
        client : & 'a super :: Client , id : Result < :: uuid :: Uuid , String > , x_op : Result < :: std :: string :: String , String > , body : Result < types :: builder :: Patch , String > ,
    }
    impl < 'a > ThingPatch < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , id : Err ("id was not initialized" . to_string ()) , x_op : Err ("x_op was not initialized" . to_string ()) , body : Ok (:: std :: default :: Default :: default ()) ,
            }

        }
        pub fn id < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: uuid :: Uuid > , {
            self . id = value . try_into () . map_err (| _ | "conversion to `:: uuid :: Uuid` for id failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        pub fn body < V > (mut self , value : V) -> Self where V : std :: convert :: TryInto < types :: Patch > , < V as std :: convert :: TryInto < types :: Patch >> :: Error : std :: fmt :: Display , {
            self . body = value . try_into () . map (From :: from) . map_err (| s | format ! ("conversion to `Patch` for body failed: {}" , s)) ;
            self
        }
        pub fn body_map < F > (mut self , f : F) -> Self where F : std :: ops :: FnOnce (types :: builder :: Patch) -> types :: builder :: Patch , {
            self . body = self . body . map (f) ;
            self
        }
        # [doc = "Sends a `PATCH` request to `/things/{id}`"] pub async fn send (self) -> Result < ResponseValue < types :: Patch > , Error < types :: ThingError > , > {
            let Self {
                client , id , x_op , body ,
            }
            = self ;
            let id = id . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let body = body . and_then (| v | types :: Patch :: try_from (v) . map_err (| e | e . to_string ())) . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/things/{}" , client . baseurl , encode_path (& id . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . patch (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . json (& body) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200 ..= 299 => {
                    ResponseValue :: from_response (response) . await
                }
                404u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                409u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::thing_list`]\n\n[`Client::thing_list`]: super::Client::thing_list"] # [derive (Debug , Clone)] pub struct ThingList < 'a > {
        client : & 'a super :: Client , filter : Result < Option < :: std :: string :: String > , String > , limit : Result < Option < :: std :: num :: NonZeroU32 > , String > , page_token : Result < Option < :: std :: string :: String > , String > , sort : Result < Option < types :: Kind > , String > , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > ThingList < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , filter : Ok (None) , limit : Ok (None) , page_token : Ok (None) , sort : Ok (None) , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn filter < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . filter = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for filter failed" . to_string ()) ;
            self
        }
        pub fn limit < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: num :: NonZeroU32 > , {
            self . limit = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: num :: NonZeroU32` for limit failed" . to_string ()) ;
            self
        }
        pub fn page_token < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . page_token = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for page_token failed" . to_string ()) ;
            self
        }
        pub fn sort < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < types :: Kind > , {
            self . sort = value . try_into () . map (Some) . map_err (| _ | "conversion to `Kind` for sort failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/things`"] pub async fn send (self) -> Result < ResponseValue < types :: ThingPage > , Error < types :: ThingError > , > {
            let Self {
                client , filter , limit , page_token , sort , x_op ,
            }
            = self ;
            let filter = filter . map_err (Error :: InvalidRequest) ? ;
            let limit = limit . map_err (Error :: InvalidRequest) ? ;
            let page_token = page_token . map_err (Error :: InvalidRequest) ? ;
            let sort = sort . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/things" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . query (& progenitor_client :: QueryParam :: new ("filter" , & filter)) . query (& progenitor_client :: QueryParam :: new ("limit" , & limit)) . query (& progenitor_client :: QueryParam :: new ("page_token" , & page_token)) . query (& progenitor_client :: QueryParam :: new ("sort" , & sort)) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200u16 => {
                    ResponseValue :: from_response (response) . await
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                500u16 ..= 599u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }
        # [doc = "Streams `GET` requests to `/things`"] pub fn stream (self) -> impl futures :: Stream < Item = Result < types :: Thing , Error < types :: ThingError > , >> + Unpin + 'a {
            use :: futures :: StreamExt ;
            use :: futures :: TryFutureExt ;
            use :: futures :: TryStreamExt ;
            let next = Self {
                filter : Ok (None) , page_token : Ok (None) , sort : Ok (None) , .. self . clone ()
            } ;
            self . send () . map_ok (move | page | {
                let page = page . into_inner () ; let first = futures :: stream :: iter (page . items) . map (Ok) ; let rest = futures :: stream :: try_unfold ((page . next_page , next) , | (next_page , next) | async {
                    if next_page . is_none () {
                        Ok (None)
                    }
                    else {
                        Self {
                            page_token : Ok (next_page) , .. next . clone ()
                        } . send () . map_ok (| page | {
                            let page = page . into_inner () ; Some ((futures :: stream :: iter (page . items) . map (Ok) , (page . next_page , next) ,))
                        }) . await
                    }

                } ,) . try_flatten () ; first . chain (rest)
            }) . try_flatten_stream () . boxed ()
        }

    }
    # [doc = "Builder for [`Client::thing_create`]\n\n[`Client::thing_create`]: super::Client::thing_create"] # [derive (Debug , Clone)] pub struct ThingCreate < 'a > {
        client : & 'a super :: Client , x_op : Result < :: std :: string :: String , String > , body : Result < types :: builder :: Thing , String > ,
    }
    impl < 'a > ThingCreate < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , x_op : Err ("x_op was not initialized" . to_string ()) , body : Ok (:: std :: default :: Default :: default ()) ,
            }

        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        pub fn body < V > (mut self , value : V) -> Self where V : std :: convert :: TryInto < types :: Thing > , < V as std :: convert :: TryInto < types :: Thing >> :: Error : std :: fmt :: Display , {
            self . body = value . try_into () . map (From :: from) . map_err (| s | format ! ("conversion to `Thing` for body failed: {}" , s)) ;
            self
        }
        pub fn body_map < F > (mut self , f : F) -> Self where F : std :: ops :: FnOnce (types :: builder :: Thing) -> types :: builder :: Thing , {
            self . body = self . body . map (f) ;
            self
        }
        # [doc = "Sends a `POST` request to `/things`"] pub async fn send (self) -> Result < ResponseValue < types :: Thing > , Error < types :: ThingError > , > {
            let Self {
                client , x_op , body ,
            }
            = self ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let body = body . and_then (| v | types :: Thing :: try_from (v) . map_err (| e | e . to_string ())) . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/things" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . post (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . json (& body) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                201u16 => {
                    ResponseValue :: from_response (response) . await
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                500u16 ..= 599u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::thing_put`]\n\n[`Client::thing_put`]: super::Client::thing_put"] # [derive (Debug , Clone)] pub struct ThingPut < 'a > {
        client : & 'a super :: Client , project : Result < :: std :: string :: String , String > , id : Result < types :: Name , String > , part_no : Result < u32 , String > , x_op : Result < :: std :: string :: String , String > , body : Result < types :: builder :: Thing , String > ,
    }
    impl < 'a > ThingPut < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , project : Err ("project was not initialized" . to_string ()) , id : Err ("id was not initialized" . to_string ()) , part_no : Err ("part_no was not initialized" . to_string ()) , x_op : Err ("x_op was not initialized" . to_string ()) , body : Ok (:: std :: default :: Default :: default ()) ,
            }

        }
        pub fn project < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . project = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for project failed" . to_string ()) ;
            self
        }
        pub fn id < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < types :: Name > , {
            self . id = value . try_into () . map_err (| _ | "conversion to `Name` for id failed" . to_string ()) ;
            self
        }
        pub fn part_no < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < u32 > , {
            self . part_no = value . try_into () . map_err (| _ | "conversion to `u32` for part_no failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        pub fn body < V > (mut self , value : V) -> Self where V : std :: convert :: TryInto < types :: Thing > , < V as std :: convert :: TryInto < types :: Thing >> :: Error : std :: fmt :: Display , {
            self . body = value . try_into () . map (From :: from) . map_err (| s | format ! ("conversion to `Thing` for body failed: {}" , s)) ;
            self
        }
        pub fn body_map < F > (mut self , f : F) -> Self where F : std :: ops :: FnOnce (types :: builder :: Thing) -> types :: builder :: Thing , {
            self . body = self . body . map (f) ;
            self
        }
        # [doc = "Sends a `PUT` request to `/v1/{project}/things/{id}/parts/{part_no}`"] pub async fn send (self) -> Result < ResponseValue < types :: Thing > , Error < types :: ThingError > , > {
            let Self {
                client , project , id , part_no , x_op , body ,
            }
            = self ;
            let project = project . map_err (Error :: InvalidRequest) ? ;
            let id = id . map_err (Error :: InvalidRequest) ? ;
            let part_no = part_no . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let body = body . and_then (| v | types :: Thing :: try_from (v) . map_err (| e | e . to_string ())) . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/v1/{}/things/{}/parts/{}" , client . baseurl , encode_path (& project . to_string ()) , encode_path (& id . to_string ()) , encode_path (& part_no . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . put (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . json (& body) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200 ..= 299 => {
                    ResponseValue :: from_response (response) . await
                }
                _ => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::proj_list`]\n\n[`Client::proj_list`]: super::Client::proj_list"] # [derive (Debug , Clone)] pub struct ProjList < 'a > {
        client : & 'a super :: Client , project : Result < :: std :: string :: String , String > , kind : Result < types :: Kind , String > , limit : Result < Option < :: std :: num :: NonZeroU32 > , String > , page_token : Result < Option < :: std :: string :: String > , String > , selector : Result < Option < :: std :: string :: String > , String > , x_op : Result < :: std :: string :: String , String > , x_scope : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > ProjList < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , project : Err ("project was not initialized" . to_string ()) , kind : Err ("kind was not initialized" . to_string ()) , limit : Ok (None) , page_token : Ok (None) , selector : Ok (None) , x_op : Err ("x_op was not initialized" . to_string ()) , x_scope : Err ("x_scope was not initialized" . to_string ()) ,
            }

        }
        pub fn project < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . project = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for project failed" . to_string ()) ;
            self
        }
        pub fn kind < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < types :: Kind > , {
            self . kind = value . try_into () . map_err (| _ | "conversion to `Kind` for kind failed" . to_string ()) ;
            self
        }
        pub fn limit < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: num :: NonZeroU32 > , {
            self . limit = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: num :: NonZeroU32` for limit failed" . to_string ()) ;
            self
        }
        pub fn page_token < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . page_token = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for page_token failed" . to_string ()) ;
            self
        }
        pub fn selector < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . selector = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for selector failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        pub fn x_scope < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_scope = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_scope failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/projects/{project}/things/{kind}`"] pub async fn send (self) -> Result < ResponseValue < types :: ThingPage > , Error < types :: ThingError > , > {
            let Self {
                client , project , kind , limit , page_token , selector , x_op , x_scope ,
            }
            = self ;
            let project = project . map_err (Error :: InvalidRequest) ? ;
            let kind = kind . map_err (Error :: InvalidRequest) ? ;
            let limit = limit . map_err (Error :: InvalidRequest) ? ;
            let page_token = page_token . map_err (Error :: InvalidRequest) ? ;
            let selector = selector . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let x_scope = x_scope . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/projects/{}/things/{}" , client . baseurl , encode_path (& project . to_string ()) , encode_path (& kind . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (3usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            header_map . append ("x-scope" , x_scope . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . query (& progenitor_client :: QueryParam :: new ("limit" , & limit)) . query (& progenitor_client :: QueryParam :: new ("page_token" , & page_token)) . query (& progenitor_client :: QueryParam :: new ("selector" , & selector)) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200u16 => {
                    ResponseValue :: from_response (response) . await
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                500u16 ..= 599u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }
        # [doc = "Streams `GET` requests to `/projects/{project}/things/{kind}`"] pub fn stream (self) -> impl futures :: Stream < Item = Result < types :: Thing , Error < types :: ThingError > , >> + Unpin + 'a {
            use :: futures :: StreamExt ;
            use :: futures :: TryFutureExt ;
            use :: futures :: TryStreamExt ;
            let next = Self {
                page_token : Ok (None) , selector : Ok (None) , .. self . clone ()
            } ;
            self . send () . map_ok (move | page | {
                let page = page . into_inner () ; let first = futures :: stream :: iter (page . items) . map (Ok) ; let rest = futures :: stream :: try_unfold ((page . next_page , next) , | (next_page , next) | async {
                    if next_page . is_none () {
                        Ok (None)
                    }
                    else {
                        Self {
                            page_token : Ok (next_page) , .. next . clone ()
                        } . send () . map_ok (| page | {
                            let page = page . into_inner () ; Some ((futures :: stream :: iter (page . items) . map (Ok) , (page . next_page , next) ,))
                        }) . await
                    }

                } ,) . try_flatten () ; first . chain (rest)
            }) . try_flatten_stream () . boxed ()
        }

    }
    # [doc = "Builder for [`Client::raw_get`]\n\n[`Client::raw_get`]: super::Client::raw_get"] # [derive (Debug , Clone)] pub struct RawGet < 'a > {
        client : & 'a super :: Client , name : Result < :: std :: string :: String , String > , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > RawGet < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , name : Err ("name was not initialized" . to_string ()) , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn name < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . name = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for name failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/raw/{name}`"] pub async fn send (self) -> Result < ResponseValue < ByteStream > , Error < ByteStream > , > {
            let Self {
                client , name , x_op ,
            }
            = self ;
            let name = name . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/raw/{}" , client . baseurl , encode_path (& name . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200u16 => {
                    Ok (ResponseValue :: stream (response))
                }
                206u16 => {
                    Ok (ResponseValue :: stream (response))
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: stream (response)))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::raw_default`]\n\n[`Client::raw_default`]: super::Client::raw_default"] # [derive (Debug , Clone)] pub struct RawDefault < 'a > {
        client : & 'a super :: Client , q : Result < Option < :: std :: string :: String > , String > , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > RawDefault < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , q : Ok (None) , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn q < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . q = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for q failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/rawdef`"] pub async fn send (self) -> Result < ResponseValue < ByteStream > , Error < ByteStream > , > {
            let Self {
                client , q , x_op ,
            }
            = self ;
            let q = q . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/rawdef" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . query (& progenitor_client :: QueryParam :: new ("q" , & q)) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200 ..= 299 => {
                    Ok (ResponseValue :: stream (response))
                }
                _ => {
                    Err (Error :: ErrorResponse (ResponseValue :: stream (response)))
                }

            }

        }

    }
    # [doc = "Builder for [`Client::upload_octet`]\n\n[`Client::upload_octet`]: super::Client::upload_octet"] # [derive (Debug)] pub struct UploadOctet < 'a > {
        client : & 'a super :: Client , name : Result < :: std :: string :: String , String > , x_op : Result < :: std :: string :: String , String > , body : Result < reqwest :: Body , String > ,
    }
    impl < 'a > UploadOctet < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , name : Err ("name was not initialized" . to_string ()) , x_op : Err ("x_op was not initialized" . to_string ()) , body : Err ("body was not initialized" . to_string ()) ,
            }

        }
        pub fn name < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . name = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for name failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        pub fn body < B > (mut self , value : B) -> Self where B : std :: convert :: TryInto < reqwest :: Body > {
            self . body = value . try_into () . map_err (| _ | "conversion to `reqwest::Body` for body failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `PUT` request to `/up/octet/{name}`"] pub async fn send (self) -> Result < ResponseValue < () > , Error < types :: ThingError > , > {
            let Self {
                client , name , x_op , body ,
            }
            = self ;
            let name = name . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let body = body . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/up/octet/{}" , client . baseurl , encode_path (& name . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . put (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . header (:: reqwest :: header :: CONTENT_TYPE , :: reqwest :: header :: HeaderValue :: from_static ("application/octet-stream") ,) . body (body) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                204u16 => {
                    Ok (ResponseValue :: empty (response))
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::upload_text`]\n\n[`Client::upload_text`]: super::Client::upload_text"] # [derive (Debug)] pub struct UploadText < 'a > {
        client : & 'a super :: Client , mode : Result < Option < :: std :: string :: String > , String > , x_op : Result < :: std :: string :: String , String > , body : Result < reqwest :: Body , String > ,
    }
    impl < 'a > UploadText < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , mode : Ok (None) , x_op : Err ("x_op was not initialized" . to_string ()) , body : Err ("body was not initialized" . to_string ()) ,
            }

        }
        pub fn mode < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . mode = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for mode failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        pub fn body < V > (mut self , value : V) -> Self where V : std :: convert :: TryInto < String > {
            self . body = value . try_into () . map_err (| _ | "conversion to `String` for body failed" . to_string ()) . map (| v | v . into ()) ;
            self
        }
        # [doc = "Sends a `PUT` request to `/up/text`"] pub async fn send (self) -> Result < ResponseValue < :: std :: string :: String > , Error < types :: ThingError > , > {
            let Self {
                client , mode , x_op , body ,
            }
            = self ;
            let mode = mode . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let body = body . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/up/text" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . put (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . header (:: reqwest :: header :: CONTENT_TYPE , :: reqwest :: header :: HeaderValue :: from_static ("text/plain") ,) . body (body) . query (& progenitor_client :: QueryParam :: new ("mode" , & mode)) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200u16 => {
                    ResponseValue :: from_response (response) . await
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::upload_md`]\n\n[`Client::upload_md`]: super::Client::upload_md"] # [derive (Debug)] pub struct UploadMd < 'a > {
        client : & 'a super :: Client , x_op : Result < :: std :: string :: String , String > , body : Result < reqwest :: Body , String > ,
    }
    impl < 'a > UploadMd < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , x_op : Err ("x_op was not initialized" . to_string ()) , body : Err ("body was not initialized" . to_string ()) ,
            }

        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        pub fn body < V > (mut self , value : V) -> Self where V : std :: convert :: TryInto < String > {
            self . body = value . try_into () . map_err (| _ | "conversion to `String` for body failed" . to_string ()) . map (| v | v . into ()) ;
            self
        }
        # [doc = "Sends a `POST` request to `/up/md`"] pub async fn send (self) -> Result < ResponseValue < u64 > , Error < types :: ThingError > , > {
            let Self {
                client , x_op , body ,
            }
            = self ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let body = body . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/up/md" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . post (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . header (:: reqwest :: header :: CONTENT_TYPE , :: reqwest :: header :: HeaderValue :: from_static ("text/x-markdown") ,) . body (body) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200 ..= 299 => {
                    ResponseValue :: from_response (response) . await
                }
                _ => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::form_post`]\n\n[`Client::form_post`]: super::Client::form_post"] # [derive (Debug , Clone)] pub struct FormPost < 'a > {
        client : & 'a super :: Client , x_op : Result < :: std :: string :: String , String > , body : Result < types :: builder :: Form , String > ,
    }
    impl < 'a > FormPost < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , x_op : Err ("x_op was not initialized" . to_string ()) , body : Ok (:: std :: default :: Default :: default ()) ,
            }

        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        pub fn body < V > (mut self , value : V) -> Self where V : std :: convert :: TryInto < types :: Form > , < V as std :: convert :: TryInto < types :: Form >> :: Error : std :: fmt :: Display , {
            self . body = value . try_into () . map (From :: from) . map_err (| s | format ! ("conversion to `Form` for body failed: {}" , s)) ;
            self
        }
        pub fn body_map < F > (mut self , f : F) -> Self where F : std :: ops :: FnOnce (types :: builder :: Form) -> types :: builder :: Form , {
            self . body = self . body . map (f) ;
            self
        }
        # [doc = "Sends a `POST` request to `/form`"] pub async fn send (self) -> Result < ResponseValue < types :: Thing > , Error < types :: ThingError > , > {
            let Self {
                client , x_op , body ,
            }
            = self ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let body = body . and_then (| v | types :: Form :: try_from (v) . map_err (| e | e . to_string ())) . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/form" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . post (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . form_urlencoded (& body) ? . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200u16 => {
                    ResponseValue :: from_response (response) . await
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::search`]\n\n[`Client::search`]: super::Client::search"] # [derive (Debug , Clone)] pub struct Search < 'a > {
        _client : & 'a super :: Client , when : Result < :: chrono :: DateTime <:: chrono :: offset :: Utc > , String > , a_b_c_d : Result < Option < :: std :: string :: String > , String > , b : Result < Option < bool > , String > , client : Result < Option < :: std :: string :: String > , String > , f : Result < Option < f64 > , String > , id : Result < Option < :: uuid :: Uuid > , String > , kind : Result < Option < types :: Kind > , String > , kinds : Result < Option < :: std :: vec :: Vec < types :: Kind > > , String > , n : Result < Option < i64 > , String > , name : Result < Option < types :: Name > , String > , nums : Result < :: std :: vec :: Vec < i32 > , String > , q : Result < :: std :: string :: String , String > , request : Result < Option < :: std :: string :: String > , String > , self_ : Result < Option < :: std :: string :: String > , String > , tag : Result < Option < :: std :: vec :: Vec < :: std :: string :: String > > , String > , type_ : Result < Option < :: std :: string :: String > , String > , u : Result < Option < u64 > , String > , url : Result < Option < :: std :: string :: String > , String > , x_kind : Result < Option < types :: Kind > , String > , x_num : Result < Option < i32 > , String > , x_op : Result < :: std :: string :: String , String > , x_text : Result < Option < :: std :: string :: String > , String > ,
    }
    impl < 'a > Search < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                _client : client , when : Err ("when was not initialized" . to_string ()) , a_b_c_d : Ok (None) , b : Ok (None) , client : Ok (None) , f : Ok (None) , id : Ok (None) , kind : Ok (None) , kinds : Ok (None) , n : Ok (None) , name : Ok (None) , nums : Err ("nums was not initialized" . to_string ()) , q : Err ("q was not initialized" . to_string ()) , request : Ok (None) , self_ : Ok (None) , tag : Ok (None) , type_ : Ok (None) , u : Ok (None) , url : Ok (None) , x_kind : Ok (None) , x_num : Ok (None) , x_op : Err ("x_op was not initialized" . to_string ()) , x_text : Ok (None) ,
            }

        }
        pub fn when < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: chrono :: DateTime <:: chrono :: offset :: Utc > > , {
            self . when = value . try_into () . map_err (| _ | "conversion to `:: chrono :: DateTime <:: chrono :: offset :: Utc >` for when failed" . to_string ()) ;
            self
        }
        pub fn a_b_c_d < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . a_b_c_d = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for a_b_c_d failed" . to_string ()) ;
            self
        }
        pub fn b < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < bool > , {
            self . b = value . try_into () . map (Some) . map_err (| _ | "conversion to `bool` for b failed" . to_string ()) ;
            self
        }
        pub fn client < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . client = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for client failed" . to_string ()) ;
            self
        }
        pub fn f < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < f64 > , {
            self . f = value . try_into () . map (Some) . map_err (| _ | "conversion to `f64` for f failed" . to_string ()) ;
            self
        }
        pub fn id < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: uuid :: Uuid > , {
            self . id = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: uuid :: Uuid` for id failed" . to_string ()) ;
            self
        }
        pub fn kind < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < types :: Kind > , {
            self . kind = value . try_into () . map (Some) . map_err (| _ | "conversion to `Kind` for kind failed" . to_string ()) ;
            self
        }
        pub fn kinds < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: vec :: Vec < types :: Kind > > , {
            self . kinds = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: vec :: Vec < types :: Kind >` for kinds failed" . to_string ()) ;
            self
        }
        pub fn n < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < i64 > , {
            self . n = value . try_into () . map (Some) . map_err (| _ | "conversion to `i64` for n failed" . to_string ()) ;
            self
        }
        pub fn name < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < types :: Name > , {
            self . name = value . try_into () . map (Some) . map_err (| _ | "conversion to `Name` for name failed" . to_string ()) ;
            self
        }
        pub fn nums < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: vec :: Vec < i32 > > , {
            self . nums = value . try_into () . map_err (| _ | "conversion to `:: std :: vec :: Vec < i32 >` for nums failed" . to_string ()) ;
            self
        }
        pub fn q < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . q = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for q failed" . to_string ()) ;
            self
        }
        pub fn request < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . request = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for request failed" . to_string ()) ;
            self
        }
        pub fn self_ < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . self_ = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for self_ failed" . to_string ()) ;
            self
        }
        pub fn tag < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: vec :: Vec < :: std :: string :: String > > , {
            self . tag = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: vec :: Vec < :: std :: string :: String >` for tag failed" . to_string ()) ;
            self
        }
        pub fn type_ < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . type_ = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for type_ failed" . to_string ()) ;
            self
        }
        pub fn u < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < u64 > , {
            self . u = value . try_into () . map (Some) . map_err (| _ | "conversion to `u64` for u failed" . to_string ()) ;
            self
        }
        pub fn url < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . url = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for url failed" . to_string ()) ;
            self
        }
        pub fn x_kind < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < types :: Kind > , {
            self . x_kind = value . try_into () . map (Some) . map_err (| _ | "conversion to `Kind` for x_kind failed" . to_string ()) ;
            self
        }
        pub fn x_num < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < i32 > , {
            self . x_num = value . try_into () . map (Some) . map_err (| _ | "conversion to `i32` for x_num failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        pub fn x_text < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_text = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for x_text failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/search/{when}`"] pub async fn send (self) -> Result < ResponseValue < :: std :: vec :: Vec < types :: Thing > > , Error < types :: ThingError > , > {
            let Self {
                _client , when , a_b_c_d , b , client , f , id , kind , kinds , n , name , nums , q , request , self_ , tag , type_ , u , url , x_kind , x_num , x_op , x_text ,
            }
            = self ;
            let when = when . map_err (Error :: InvalidRequest) ? ;
            let a_b_c_d = a_b_c_d . map_err (Error :: InvalidRequest) ? ;
            let b = b . map_err (Error :: InvalidRequest) ? ;
            let client = client . map_err (Error :: InvalidRequest) ? ;
            let f = f . map_err (Error :: InvalidRequest) ? ;
            let id = id . map_err (Error :: InvalidRequest) ? ;
            let kind = kind . map_err (Error :: InvalidRequest) ? ;
            let kinds = kinds . map_err (Error :: InvalidRequest) ? ;
            let n = n . map_err (Error :: InvalidRequest) ? ;
            let name = name . map_err (Error :: InvalidRequest) ? ;
            let nums = nums . map_err (Error :: InvalidRequest) ? ;
            let q = q . map_err (Error :: InvalidRequest) ? ;
            let request = request . map_err (Error :: InvalidRequest) ? ;
            let self_ = self_ . map_err (Error :: InvalidRequest) ? ;
            let tag = tag . map_err (Error :: InvalidRequest) ? ;
            let type_ = type_ . map_err (Error :: InvalidRequest) ? ;
            let u = u . map_err (Error :: InvalidRequest) ? ;
            let url = url . map_err (Error :: InvalidRequest) ? ;
            let x_kind = x_kind . map_err (Error :: InvalidRequest) ? ;
            let x_num = x_num . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let x_text = x_text . map_err (Error :: InvalidRequest) ? ;
            let _url = format ! ("{}/search/{}" , _client . baseurl , encode_path (& when . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (5usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (_client . api_version ()) ,) ;
            if let Some (value) = x_kind {
                header_map . append ("x-kind" , value . to_string () . try_into () ?) ;

            }
            if let Some (value) = x_num {
                header_map . append ("x-num" , value . to_string () . try_into () ?) ;

            }
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            if let Some (value) = x_text {
                header_map . append ("x-text" , value . to_string () . try_into () ?) ;

            }
            # [allow (unused_mut)] let mut _request = _client . client . get (_url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . query (& progenitor_client :: QueryParam :: new ("a b&c=d" , & a_b_c_d)) . query (& progenitor_client :: QueryParam :: new ("b" , & b)) . query (& progenitor_client :: QueryParam :: new ("client" , & client)) . query (& progenitor_client :: QueryParam :: new ("f" , & f)) . query (& progenitor_client :: QueryParam :: new ("id" , & id)) . query (& progenitor_client :: QueryParam :: new ("kind" , & kind)) . query (& progenitor_client :: QueryParam :: new ("kinds" , & kinds)) . query (& progenitor_client :: QueryParam :: new ("n" , & n)) . query (& progenitor_client :: QueryParam :: new ("name" , & name)) . query (& progenitor_client :: QueryParam :: new ("nums" , & nums)) . query (& progenitor_client :: QueryParam :: new ("q" , & q)) . query (& progenitor_client :: QueryParam :: new ("request" , & request)) . query (& progenitor_client :: QueryParam :: new ("self" , & self_)) . query (& progenitor_client :: QueryParam :: new ("tag[]" , & tag)) . query (& progenitor_client :: QueryParam :: new ("type" , & type_)) . query (& progenitor_client :: QueryParam :: new ("u" , & u)) . query (& progenitor_client :: QueryParam :: new ("url" , & url)) . headers (header_map) . build () ? ;
            let result = _client . client . execute (_request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200u16 => {
                    ResponseValue :: from_response (response) . await
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::channel`]\n\n[`Client::channel`]: super::Client::channel"] # [derive (Debug , Clone)] pub struct Channel < 'a > {
        client : & 'a super :: Client , id : Result < :: std :: string :: String , String > , mode : Result < Option < :: std :: string :: String > , String > , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > Channel < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , id : Err ("id was not initialized" . to_string ()) , mode : Ok (None) , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn id < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . id = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for id failed" . to_string ()) ;
            self
        }
        pub fn mode < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . mode = value . try_into () . map (Some) . map_err (| _ | "conversion to `:: std :: string :: String` for mode failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/ws/{id}`"] pub async fn send (self) -> Result < ResponseValue < reqwest :: Upgraded > , Error < reqwest :: Upgraded > , > {
            let Self {
                client , id , mode , x_op ,
            }
            = self ;
            let id = id . map_err (Error :: InvalidRequest) ? ;
            let mode = mode . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/ws/{}" , client . baseurl , encode_path (& id . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . query (& progenitor_client :: QueryParam :: new ("mode" , & mode)) . headers (header_map) . header (:: reqwest :: header :: CONNECTION , "Upgrade") . header (:: reqwest :: header :: UPGRADE , "websocket") . header (:: reqwest :: header :: SEC_WEBSOCKET_VERSION , "13") . header (:: reqwest :: header :: SEC_WEBSOCKET_KEY , :: base64 :: Engine :: encode (& :: base64 :: engine :: general_purpose :: STANDARD , :: rand :: random :: < [u8 ; 16] > () ,)) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                101u16 => {
                    ResponseValue :: upgrade (response) . await
                }
                200 ..= 299 => {
                    ResponseValue :: upgrade (response) . await
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::channel_typed`]\n\n[`Client::channel_typed`]: super::Client::channel_typed"] # [derive (Debug , Clone)] pub struct ChannelTyped < 'a > {
        client : & 'a super :: Client , id : Result < :: std :: string :: String , String > , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > ChannelTyped < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , id : Err ("id was not initialized" . to_string ()) , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn id < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . id = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for id failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/wst/{id}`"] pub async fn send (self) -> Result < ResponseValue < reqwest :: Upgraded > , Error < types :: ThingError > , > {
            let Self {
                client , id , x_op ,
            }
            = self ;
            let id = id . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/wst/{}" , client . baseurl , encode_path (& id . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . headers (header_map) . header (:: reqwest :: header :: CONNECTION , "Upgrade") . header (:: reqwest :: header :: UPGRADE , "websocket") . header (:: reqwest :: header :: SEC_WEBSOCKET_VERSION , "13") . header (:: reqwest :: header :: SEC_WEBSOCKET_KEY , :: base64 :: Engine :: encode (& :: base64 :: engine :: general_purpose :: STANDARD , :: rand :: random :: < [u8 ; 16] > () ,)) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                101u16 => {
                    ResponseValue :: upgrade (response) . await
                }
                200u16 => {
                    ResponseValue :: upgrade (response) . await
                }
                400u16 ..= 499u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::do_nothing`]\n\n[`Client::do_nothing`]: super::Client::do_nothing"] # [derive (Debug , Clone)] pub struct DoNothing < 'a > {
        client : & 'a super :: Client , a : Result < :: std :: string :: String , String > , b : Result < :: std :: string :: String , String > , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > DoNothing < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , a : Err ("a was not initialized" . to_string ()) , b : Err ("b was not initialized" . to_string ()) , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn a < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . a = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for a failed" . to_string ()) ;
            self
        }
        pub fn b < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . b = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for b failed" . to_string ()) ;
            self
        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `POST` request to `/nothing/{a}-{b}.x`"] pub async fn send (self) -> Result < ResponseValue < () > , Error < types :: ThingError > , > {
            let Self {
                client , a , b , x_op ,
            }
            = self ;
            let a = a . map_err (Error :: InvalidRequest) ? ;
            let b = b . map_err (Error :: InvalidRequest) ? ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/nothing/{}-{}.x" , client . baseurl , encode_path (& a . to_string ()) , encode_path (& b . to_string ()) ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . post (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200 ..= 299 => {
                    Ok (ResponseValue :: empty (response))
                }
                _ => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::only_errors`]\n\n[`Client::only_errors`]: super::Client::only_errors"] # [derive (Debug , Clone)] pub struct OnlyErrors < 'a > {
        client : & 'a super :: Client , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > OnlyErrors < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/onlyerr`"] pub async fn send (self) -> Result < ResponseValue < ByteStream > , Error < types :: ThingError > , > {
            let Self {
                client , x_op ,
            }
            = self ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/onlyerr" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200 ..= 299 => {
                    Ok (ResponseValue :: stream (response))
                }
                404u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::opt_json`]\n\n[`Client::opt_json`]: super::Client::opt_json"] # [derive (Debug , Clone)] pub struct OptJson < 'a > {
        client : & 'a super :: Client , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > OptJson < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/opt`"] pub async fn send (self) -> Result < ResponseValue < :: std :: option :: Option < types :: OptJsonResponse > > , Error < () > , > {
            let Self {
                client , x_op ,
            }
            = self ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/opt" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200u16 => {
                    ResponseValue :: from_response (response) . await
                }
                500u16 ..= 599u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: empty (response)))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::scalar_json`]\n\n[`Client::scalar_json`]: super::Client::scalar_json"] # [derive (Debug , Clone)] pub struct ScalarJson < 'a > {
        client : & 'a super :: Client , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > ScalarJson < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/scalar`"] pub async fn send (self) -> Result < ResponseValue < i64 > , Error < :: std :: string :: String > , > {
            let Self {
                client , x_op ,
            }
            = self ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/scalar" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200 ..= 299 => {
                    ResponseValue :: from_response (response) . await
                }
                _ => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::any_json`]\n\n[`Client::any_json`]: super::Client::any_json"] # [derive (Debug , Clone)] pub struct AnyJson < 'a > {
        client : & 'a super :: Client , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > AnyJson < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/any`"] pub async fn send (self) -> Result < ResponseValue < types :: Any > , Error < types :: Any > , > {
            let Self {
                client , x_op ,
            }
            = self ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/any" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200 ..= 299 => {
                    ResponseValue :: from_response (response) . await
                }
                _ => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }

            }

        }

    }
    # [doc = "Builder for [`Client::map_json`]\n\n[`Client::map_json`]: super::Client::map_json"] # [derive (Debug , Clone)] pub struct MapJson < 'a > {
        client : & 'a super :: Client , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > MapJson < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/map`"] pub async fn send (self) -> Result < ResponseValue < :: std :: collections :: HashMap < :: std :: string :: String , i64 > > , Error < :: std :: vec :: Vec < :: std :: string :: String > > , > {
            let Self {
                client , x_op ,
            }
            = self ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/map" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                203u16 => {
                    ResponseValue :: from_response (response) . await
                }
                418u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }
    # [doc = "Builder for [`Client::root_get`]\n\n[`Client::root_get`]: super::Client::root_get"] # [derive (Debug , Clone)] pub struct RootGet < 'a > {
        client : & 'a super :: Client , x_op : Result < :: std :: string :: String , String > ,
    }
    impl < 'a > RootGet < 'a > {
        pub fn new (client : & 'a super :: Client) -> Self {
            Self {
                client : client , x_op : Err ("x_op was not initialized" . to_string ()) ,
            }

        }
        pub fn x_op < V > (mut self , value : V ,) -> Self where V : std :: convert :: TryInto < :: std :: string :: String > , {
            self . x_op = value . try_into () . map_err (| _ | "conversion to `:: std :: string :: String` for x_op failed" . to_string ()) ;
            self
        }
        # [doc = "Sends a `GET` request to `/`"] pub async fn send (self) -> Result < ResponseValue < () > , Error < ByteStream > , > {
            let Self {
                client , x_op ,
            }
            = self ;
            let x_op = x_op . map_err (Error :: InvalidRequest) ? ;
            let url = format ! ("{}/" , client . baseurl ,) ;
            let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
            header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (client . api_version ()) ,) ;
            header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
            # [allow (unused_mut)] let mut request = client . client . get (url) . headers (header_map) . build () ? ;
            let result = client . client . execute (request) . await ;
            let response = result ? ;
            match response . status () . as_u16 () {
                200u16 => {
                    Ok (ResponseValue :: empty (response))
                }
                500u16 ..= 599u16 => {
                    Err (Error :: ErrorResponse (ResponseValue :: stream (response)))
                }
                _ => Err (Error :: UnexpectedResponse (response)) ,
            }

        }

    }

}
# [doc = r" Items consumers will typically use such as the Client."] pub mod prelude {
    pub use self :: super :: Client ;

}

