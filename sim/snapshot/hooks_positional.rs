# [allow (unused_imports)] pub use progenitor_client :: {
    ByteStream , Error , ResponseValue
} ;
# [allow (unused_imports)] use progenitor_client :: {
    encode_path , RequestBuilderExt
} ;
# [doc = r" Types used as operation parameters and responses."] # [allow (clippy :: all)] pub mod types {
    # [doc = r" Error types."] pub mod error {
        # [doc = r" Error from a `TryFrom` or `FromStr` implementation."] pub struct ConversionError (:: std :: borrow :: Cow < 'static , str >) ;
        impl :: std :: error :: Error for ConversionError {

        }
        impl :: std :: fmt :: Display for ConversionError {
            fn fmt (& self , f : & mut :: std :: fmt :: Formatter < '_ >) -> Result < () , :: std :: fmt :: Error > {
                :: std :: fmt :: Display :: fmt (& self . 0 , f)
            }

        }
        impl :: std :: fmt :: Debug for ConversionError {
            fn fmt (& self , f : & mut :: std :: fmt :: Formatter < '_ >) -> Result < () , :: std :: fmt :: Error > {
                :: std :: fmt :: Debug :: fmt (& self . 0 , f)
            }

        }
        impl From < & 'static str > for ConversionError {
            fn from (value : & 'static str) -> Self {
                Self (value . into ())
            }

        }
        impl From < String > for ConversionError {
            fn from (value : String) -> Self {
                Self (value . into ())
            }

        }

    }
    # [doc = "`Any`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] # [serde (transparent)] pub struct Any (pub :: serde_json :: Value) ;
    impl :: std :: ops :: Deref for Any {
        type Target = :: serde_json :: Value ;
        fn deref (& self) -> & :: serde_json :: Value {
            & self . 0
        }

    }
    impl :: std :: convert :: From < Any > for :: serde_json :: Value {
        fn from (value : Any) -> Self {
            value . 0
        }

    }
    impl :: std :: convert :: From < & Any > for Any {
        fn from (value : & Any) -> Self {
            value . clone ()
        }

    }
    impl :: std :: convert :: From < :: serde_json :: Value > for Any {
        fn from (value : :: serde_json :: Value) -> Self {
            Self (value)
        }

    }
    # [doc = "`Form`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct Form {
        pub a : :: std :: string :: String , pub count : u32 , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub flag : :: std :: option :: Option < bool > , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub kind : :: std :: option :: Option < Kind > , # [serde (rename = "odd name&=" , default , skip_serializing_if = "::std::option::Option::is_none")] pub odd_name : :: std :: option :: Option < :: std :: string :: String >
    }
    impl :: std :: convert :: From < & Form > for Form {
        fn from (value : & Form) -> Self {
            value . clone ()
        }

    }
    # [doc = "`Inner`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct Inner {
        pub a : i32 , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub b : :: std :: option :: Option < bool > , # [serde (default , skip_serializing_if = "::std::vec::Vec::is_empty")] pub more : :: std :: vec :: Vec < Inner >
    }
    impl :: std :: convert :: From < & Inner > for Inner {
        fn from (value : & Inner) -> Self {
            value . clone ()
        }

    }
    # [doc = "`Kind`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Copy , Debug , Eq , Hash , Ord , PartialEq , PartialOrd)] pub enum Kind {
        # [serde (rename = "alpha")] Alpha , # [serde (rename = "be ta")] BeTa , # [serde (rename = "ga/mma")] GaMma ,
    }
    impl :: std :: convert :: From < & Self > for Kind {
        fn from (value : & Kind) -> Self {
            value . clone ()
        }

    }
    impl :: std :: fmt :: Display for Kind {
        fn fmt (& self , f : & mut :: std :: fmt :: Formatter < '_ >) -> :: std :: fmt :: Result {
            match * self {
                Self :: Alpha => f . write_str ("alpha") , Self :: BeTa => f . write_str ("be ta") , Self :: GaMma => f . write_str ("ga/mma") ,
            }

        }

    }
    impl :: std :: str :: FromStr for Kind {
        type Err = self :: error :: ConversionError ;
        fn from_str (value : & str) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            match value {
                "alpha" => Ok (Self :: Alpha) , "be ta" => Ok (Self :: BeTa) , "ga/mma" => Ok (Self :: GaMma) , _ => Err ("invalid value" . into ()) ,
            }

        }

    }
    impl :: std :: convert :: TryFrom < & str > for Kind {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : & str) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    impl :: std :: convert :: TryFrom < & :: std :: string :: String > for Kind {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : & :: std :: string :: String) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    impl :: std :: convert :: TryFrom < :: std :: string :: String > for Kind {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : :: std :: string :: String) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    # [doc = "`Name`"] # [derive (:: serde :: Serialize , Clone , Debug , Eq , Hash , Ord , PartialEq , PartialOrd)] # [serde (transparent)] pub struct Name (:: std :: string :: String) ;
    impl :: std :: ops :: Deref for Name {
        type Target = :: std :: string :: String ;
        fn deref (& self) -> & :: std :: string :: String {
            & self . 0
        }

    }
    impl :: std :: convert :: From < Name > for :: std :: string :: String {
        fn from (value : Name) -> Self {
            value . 0
        }

    }
    impl :: std :: convert :: From < & Name > for Name {
        fn from (value : & Name) -> Self {
            value . clone ()
        }

    }
    impl :: std :: str :: FromStr for Name {
        type Err = self :: error :: ConversionError ;
        fn from_str (value : & str) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            if value . chars () . count () > 63usize {
                return Err ("longer than 63 characters" . into ()) ;

            }
            if value . chars () . count () < 1usize {
                return Err ("shorter than 1 characters" . into ()) ;

            }
            Ok (Self (value . to_string ()))
        }

    }
    impl :: std :: convert :: TryFrom < & str > for Name {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : & str) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    impl :: std :: convert :: TryFrom < & :: std :: string :: String > for Name {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : & :: std :: string :: String) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    impl :: std :: convert :: TryFrom < :: std :: string :: String > for Name {
        type Error = self :: error :: ConversionError ;
        fn try_from (value : :: std :: string :: String) -> :: std :: result :: Result < Self , self :: error :: ConversionError > {
            value . parse ()
        }

    }
    impl :: std :: fmt :: Display for Name {
        fn fmt (& self , f : & mut :: std :: fmt :: Formatter < '_ >) -> :: std :: fmt :: Result {
            self . 0 . fmt (f)
        }

    }
    impl < 'de > :: serde :: Deserialize < 'de > for Name {
        fn deserialize < D > (deserializer : D) -> :: std :: result :: Result < Self , D :: Error > where D : :: serde :: Deserializer < 'de > {
            :: std :: string :: String :: deserialize (deserializer) ? . parse () . map_err (| e : self :: error :: ConversionError | {
                < D :: Error as :: serde :: de :: Error > :: custom (e . to_string ())
            })
        }

    }
    # [doc = "`OptJsonResponse`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct OptJsonResponse {
        pub a : :: std :: string :: String
    }
    impl :: std :: convert :: From < & OptJsonResponse > for OptJsonResponse {
        fn from (value : & OptJsonResponse) -> Self {
            value . clone ()
        }

    }
    # [doc = "`Patch`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct Patch {
        # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub level : :: std :: option :: Option < i64 > , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub name : :: std :: option :: Option < :: std :: string :: String > , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub on : :: std :: option :: Option < bool >
    }
    impl :: std :: convert :: From < & Patch > for Patch {
        fn from (value : & Patch) -> Self {
            value . clone ()
        }

    }
    impl :: std :: default :: Default for Patch {
        fn default () -> Self {
            Self {
                level : Default :: default () , name : Default :: default () , on : Default :: default ()
            }

        }

    }
    # [doc = "A thing"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct Thing {
        pub id : u64 , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub inner : :: std :: option :: Option < Inner > , pub kind : Kind , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub made : :: std :: option :: Option < :: chrono :: DateTime <:: chrono :: offset :: Utc > > , pub name : :: std :: string :: String , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub note : :: std :: option :: Option < :: std :: string :: String > , pub tags : :: std :: vec :: Vec < :: std :: string :: String > , # [serde (rename = "type" , default , skip_serializing_if = "::std::option::Option::is_none")] pub type_ : :: std :: option :: Option < i32 > , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub weight : :: std :: option :: Option < f64 >
    }
    impl :: std :: convert :: From < & Thing > for Thing {
        fn from (value : & Thing) -> Self {
            value . clone ()
        }

    }
    # [doc = "`ThingError`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct ThingError {
        pub code : i32 , pub message : :: std :: string :: String
    }
    impl :: std :: convert :: From < & ThingError > for ThingError {
        fn from (value : & ThingError) -> Self {
            value . clone ()
        }

    }
    # [doc = "`ThingPage`"] # [derive (:: serde :: Deserialize , :: serde :: Serialize , Clone , Debug , PartialEq)] pub struct ThingPage {
        pub items : :: std :: vec :: Vec < Thing > , # [serde (default , skip_serializing_if = "::std::option::Option::is_none")] pub next_page : :: std :: option :: Option < :: std :: string :: String >
    }
    impl :: std :: convert :: From < & ThingPage > for ThingPage {
        fn from (value : & ThingPage) -> Self {
            value . clone ()
        }

    }

}
# [derive (Clone , Debug)] # [doc = "Client for Simulated service\n\nEverything a generated client can do\n\nVersion: 1.4.2-sim"] pub struct Client {
    pub (crate) baseurl : String , pub (crate) client : reqwest :: Client , pub (crate) inner : crate :: hooks :: Inner ,
}
impl Client {
    # [doc = r" Create a new client."] # [doc = r""] # [doc = r" `baseurl` is the base URL provided to the internal"] # [doc = r" `reqwest::Client`, and should include a scheme and hostname,"] # [doc = r" as well as port and a path stem if applicable."] pub fn new (baseurl : & str , inner : crate :: hooks :: Inner ,) -> Self {
        # [cfg (not (target_arch = "wasm32"))] let client = {
            let dur = std :: time :: Duration :: from_secs (15) ;
            reqwest :: ClientBuilder :: new () . connect_timeout (dur) . timeout (dur)
        } ;
        # [cfg (target_arch = "wasm32")] let client = reqwest :: ClientBuilder :: new () ;
        Self :: new_with_client (baseurl , client . build () . unwrap () , inner)
    }
    # [doc = r" Construct a new client with an existing `reqwest::Client`,"] # [doc = r" allowing more control over its configuration."] # [doc = r""] # [doc = r" `baseurl` is the base URL provided to the internal"] # [doc = r" `reqwest::Client`, and should include a scheme and hostname,"] # [doc = r" as well as port and a path stem if applicable."] pub fn new_with_client (baseurl : & str , client : reqwest :: Client , inner : crate :: hooks :: Inner ,) -> Self {
        Self {
            baseurl : baseurl . to_string () , client , inner
        }

    }
    # [doc = r" Get the base URL to which requests are made."] pub fn baseurl (& self) -> & String {
        & self . baseurl
    }
    # [doc = r" Get the internal `reqwest::Client` used to make requests."] pub fn client (& self) -> & reqwest :: Client {
        & self . client
    }
    # [doc = r" Get the version of this API."] # [doc = r""] # [doc = r" This string is pulled directly from the source OpenAPI"] # [doc = r" document and may be in any format the API selects."] pub fn api_version (& self) -> & 'static str {
        "1.4.2-sim"
    }
    # [doc = r" Return a reference to the inner type stored in `self`."] pub fn inner (& self) -> & crate :: hooks :: Inner {
        & self . inner
    }

}
# [allow (clippy :: all)] # [allow (elided_named_lifetimes)] impl Client {
    # [doc = "Sends a `GET` request to `/things/{id}`\n\n"] pub async fn thing_get < 'a > (& 'a self , id : & 'a str , x_op : & 'a str) -> Result < ResponseValue < types :: Thing > , Error < types :: ThingError > , > {
        let url = format ! ("{}/things/{}" , self . baseurl , encode_path (& id . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                ResponseValue :: from_response (response) . await
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            500u16 ..= 599u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `DELETE` request to `/things/{id}`\n\n"] pub async fn thing_delete < 'a > (& 'a self , id : & 'a str , x_op : & 'a str) -> Result < ResponseValue < () > , Error < types :: ThingError > , > {
        let url = format ! ("{}/things/{}" , self . baseurl , encode_path (& id . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . delete (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            204u16 => {
                Ok (ResponseValue :: empty (response))
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            500u16 ..= 599u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `HEAD` request to `/things/{id}`\n\n"] pub async fn thing_head < 'a > (& 'a self , id : & 'a str , x_op : & 'a str) -> Result < ResponseValue < () > , Error < () > , > {
        let url = format ! ("{}/things/{}" , self . baseurl , encode_path (& id . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . head (url) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                Ok (ResponseValue :: empty (response))
            }
            404u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: empty (response)))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `PATCH` request to `/things/{id}`\n\n"] pub async fn thing_patch < 'a > (& 'a self , id : & 'a :: uuid :: Uuid , x_op : & 'a str , body : & 'a types :: Patch) -> Result < ResponseValue < types :: Patch > , Error < types :: ThingError > , > {
        let url = format ! ("{}/things/{}" , self . baseurl , encode_path (& id . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . patch (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . json (& body) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200 ..= 299 => {
                ResponseValue :: from_response (response) . await
            }
            404u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            409u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/things`\n\n"] pub async fn thing_list < 'a > (& 'a self , filter : Option < & 'a str > , limit : Option < :: std :: num :: NonZeroU32 > , page_token : Option < & 'a str > , sort : Option < types :: Kind > , x_op : & 'a str) -> Result < ResponseValue < types :: ThingPage > , Error < types :: ThingError > , > {
        let url = format ! ("{}/things" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . query (& progenitor_client :: QueryParam :: new ("filter" , & filter)) . query (& progenitor_client :: QueryParam :: new ("limit" , & limit)) . query (& progenitor_client :: QueryParam :: new ("page_token" , & page_token)) . query (& progenitor_client :: QueryParam :: new ("sort" , & sort)) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                ResponseValue :: from_response (response) . await
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            500u16 ..= 599u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends repeated `GET` requests to `/things` until there are no more results.\n\n"] pub fn thing_list_stream < 'a > (& 'a self , filter : Option < & 'a str > , limit : Option < :: std :: num :: NonZeroU32 > , sort : Option < types :: Kind > , x_op : & 'a str) -> impl futures :: Stream < Item = Result < types :: Thing , Error < types :: ThingError > , >> + Unpin + '_ {
        use futures :: StreamExt ;
        use futures :: TryFutureExt ;
        use futures :: TryStreamExt ;
        self . thing_list (filter , limit , None , sort , x_op ,) . map_ok (move | page | {
            let page = page . into_inner () ; let first = futures :: stream :: iter (page . items) . map (Ok) ; let rest = futures :: stream :: try_unfold (page . next_page , move | state | async move {
                if state . is_none () {
                    Ok (None)
                }
                else {
                    self . thing_list (None , limit , state . as_deref () , None , x_op ,) . map_ok (| page | {
                        let page = page . into_inner () ; Some ((futures :: stream :: iter (page . items) . map (Ok) , page . next_page ,))
                    }) . await
                }

            } ,) . try_flatten () ; first . chain (rest)
        }) . try_flatten_stream () . boxed ()
    }
    # [doc = "Sends a `POST` request to `/things`\n\n"] pub async fn thing_create < 'a > (& 'a self , x_op : & 'a str , body : & 'a types :: Thing) -> Result < ResponseValue < types :: Thing > , Error < types :: ThingError > , > {
        let url = format ! ("{}/things" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . post (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . json (& body) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            201u16 => {
                ResponseValue :: from_response (response) . await
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            500u16 ..= 599u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `PUT` request to `/v1/{project}/things/{id}/parts/{part_no}`\n\n"] pub async fn thing_put < 'a > (& 'a self , project : & 'a str , id : & 'a types :: Name , part_no : u32 , x_op : & 'a str , body : & 'a types :: Thing) -> Result < ResponseValue < types :: Thing > , Error < types :: ThingError > , > {
        let url = format ! ("{}/v1/{}/things/{}/parts/{}" , self . baseurl , encode_path (& project . to_string ()) , encode_path (& id . to_string ()) , encode_path (& part_no . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . put (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . json (& body) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200 ..= 299 => {
                ResponseValue :: from_response (response) . await
            }
            _ => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/projects/{project}/things/{kind}`\n\n"] pub async fn proj_list < 'a > (& 'a self , project : & 'a str , kind : types :: Kind , limit : Option < :: std :: num :: NonZeroU32 > , page_token : Option < & 'a str > , selector : Option < & 'a str > , x_op : & 'a str , x_scope : & 'a str) -> Result < ResponseValue < types :: ThingPage > , Error < types :: ThingError > , > {
        let url = format ! ("{}/projects/{}/things/{}" , self . baseurl , encode_path (& project . to_string ()) , encode_path (& kind . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (3usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        header_map . append ("x-scope" , x_scope . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . query (& progenitor_client :: QueryParam :: new ("limit" , & limit)) . query (& progenitor_client :: QueryParam :: new ("page_token" , & page_token)) . query (& progenitor_client :: QueryParam :: new ("selector" , & selector)) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                ResponseValue :: from_response (response) . await
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            500u16 ..= 599u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends repeated `GET` requests to `/projects/{project}/things/{kind}` until there are no more results.\n\n"] pub fn proj_list_stream < 'a > (& 'a self , project : & 'a str , kind : types :: Kind , limit : Option < :: std :: num :: NonZeroU32 > , selector : Option < & 'a str > , x_op : & 'a str , x_scope : & 'a str) -> impl futures :: Stream < Item = Result < types :: Thing , Error < types :: ThingError > , >> + Unpin + '_ {
        use futures :: StreamExt ;
        use futures :: TryFutureExt ;
        use futures :: TryStreamExt ;
        self . proj_list (project , kind , limit , None , selector , x_op , x_scope ,) . map_ok (move | page | {
            let page = page . into_inner () ; let first = futures :: stream :: iter (page . items) . map (Ok) ; let rest = futures :: stream :: try_unfold (page . next_page , move | state | async move {
                if state . is_none () {
                    Ok (None)
                }
                else {
                    self . proj_list (project , kind , limit , state . as_deref () , None , x_op , x_scope ,) . map_ok (| page | {
                        let page = page . into_inner () ; Some ((futures :: stream :: iter (page . items) . map (Ok) , page . next_page ,))
                    }) . await
                }

            } ,) . try_flatten () ; first . chain (rest)
        }) . try_flatten_stream () . boxed ()
    }
    # [doc = "Sends a `GET` request to `/raw/{name}`\n\n"] pub async fn raw_get < 'a > (& 'a self , name : & 'a str , x_op : & 'a str) -> Result < ResponseValue < ByteStream > , Error < ByteStream > , > {
        let url = format ! ("{}/raw/{}" , self . baseurl , encode_path (& name . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                Ok (ResponseValue :: stream (response))
            }
            206u16 => {
                Ok (ResponseValue :: stream (response))
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: stream (response)))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/rawdef`\n\n"] pub async fn raw_default < 'a > (& 'a self , q : Option < & 'a str > , x_op : & 'a str) -> Result < ResponseValue < ByteStream > , Error < ByteStream > , > {
        let url = format ! ("{}/rawdef" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . query (& progenitor_client :: QueryParam :: new ("q" , & q)) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200 ..= 299 => {
                Ok (ResponseValue :: stream (response))
            }
            _ => {
                Err (Error :: ErrorResponse (ResponseValue :: stream (response)))
            }

        }

    }
    # [doc = "Sends a `PUT` request to `/up/octet/{name}`\n\n"] pub async fn upload_octet < 'a , B : Into < reqwest :: Body > > (& 'a self , name : & 'a str , x_op : & 'a str , body : B) -> Result < ResponseValue < () > , Error < types :: ThingError > , > {
        let url = format ! ("{}/up/octet/{}" , self . baseurl , encode_path (& name . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . put (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . header (:: reqwest :: header :: CONTENT_TYPE , :: reqwest :: header :: HeaderValue :: from_static ("application/octet-stream") ,) . body (body) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            204u16 => {
                Ok (ResponseValue :: empty (response))
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `PUT` request to `/up/text`\n\n"] pub async fn upload_text < 'a > (& 'a self , mode : Option < & 'a str > , x_op : & 'a str , body : String) -> Result < ResponseValue < :: std :: string :: String > , Error < types :: ThingError > , > {
        let url = format ! ("{}/up/text" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . put (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . header (:: reqwest :: header :: CONTENT_TYPE , :: reqwest :: header :: HeaderValue :: from_static ("text/plain") ,) . body (body) . query (& progenitor_client :: QueryParam :: new ("mode" , & mode)) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                ResponseValue :: from_response (response) . await
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `POST` request to `/up/md`\n\n"] pub async fn upload_md < 'a > (& 'a self , x_op : & 'a str , body : String) -> Result < ResponseValue < u64 > , Error < types :: ThingError > , > {
        let url = format ! ("{}/up/md" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . post (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . header (:: reqwest :: header :: CONTENT_TYPE , :: reqwest :: header :: HeaderValue :: from_static ("text/x-markdown") ,) . body (body) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200 ..= 299 => {
                ResponseValue :: from_response (response) . await
            }
            _ => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `POST` request to `/form`\n\n"] pub async fn form_post < 'a > (& 'a self , x_op : & 'a str , body : & 'a types :: Form) -> Result < ResponseValue < types :: Thing > , Error < types :: ThingError > , > {
        let url = format ! ("{}/form" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . post (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . form_urlencoded (& body) ? . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                ResponseValue :: from_response (response) . await
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/search/{when}`\n\n"] pub async fn search < 'a > (& 'a self , when : & 'a :: chrono :: DateTime <:: chrono :: offset :: Utc > , a_b_c_d : Option < & 'a str > , b : Option < bool > , client : Option < & 'a str > , f : Option < f64 > , id : Option < & 'a :: uuid :: Uuid > , kind : Option < types :: Kind > , kinds : Option < & 'a :: std :: vec :: Vec < types :: Kind > > , n : Option < i64 > , name : Option < & 'a types :: Name > , nums : & 'a :: std :: vec :: Vec < i32 > , q : & 'a str , request : Option < & 'a str > , self_ : Option < & 'a str > , tag : Option < & 'a :: std :: vec :: Vec < :: std :: string :: String > > , type_ : Option < & 'a str > , u : Option < u64 > , url : Option < & 'a str > , x_kind : Option < types :: Kind > , x_num : Option < i32 > , x_op : & 'a str , x_text : Option < & 'a str >) -> Result < ResponseValue < :: std :: vec :: Vec < types :: Thing > > , Error < types :: ThingError > , > {
        let _url = format ! ("{}/search/{}" , self . baseurl , encode_path (& when . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (5usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        if let Some (value) = x_kind {
            header_map . append ("x-kind" , value . to_string () . try_into () ?) ;

        }
        if let Some (value) = x_num {
            header_map . append ("x-num" , value . to_string () . try_into () ?) ;

        }
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        if let Some (value) = x_text {
            header_map . append ("x-text" , value . to_string () . try_into () ?) ;

        }
        # [allow (unused_mut)] let mut _request = self . client . get (_url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . query (& progenitor_client :: QueryParam :: new ("a b&c=d" , & a_b_c_d)) . query (& progenitor_client :: QueryParam :: new ("b" , & b)) . query (& progenitor_client :: QueryParam :: new ("client" , & client)) . query (& progenitor_client :: QueryParam :: new ("f" , & f)) . query (& progenitor_client :: QueryParam :: new ("id" , & id)) . query (& progenitor_client :: QueryParam :: new ("kind" , & kind)) . query (& progenitor_client :: QueryParam :: new ("kinds" , & kinds)) . query (& progenitor_client :: QueryParam :: new ("n" , & n)) . query (& progenitor_client :: QueryParam :: new ("name" , & name)) . query (& progenitor_client :: QueryParam :: new ("nums" , & nums)) . query (& progenitor_client :: QueryParam :: new ("q" , & q)) . query (& progenitor_client :: QueryParam :: new ("request" , & request)) . query (& progenitor_client :: QueryParam :: new ("self" , & self_)) . query (& progenitor_client :: QueryParam :: new ("tag[]" , & tag)) . query (& progenitor_client :: QueryParam :: new ("type" , & type_)) . query (& progenitor_client :: QueryParam :: new ("u" , & u)) . query (& progenitor_client :: QueryParam :: new ("url" , & url)) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & _request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut _request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (_request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                ResponseValue :: from_response (response) . await
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/ws/{id}`\n\n"] pub async fn channel < 'a > (& 'a self , id : & 'a str , mode : Option < & 'a str > , x_op : & 'a str) -> Result < ResponseValue < reqwest :: Upgraded > , Error < reqwest :: Upgraded > , > {
        let url = format ! ("{}/ws/{}" , self . baseurl , encode_path (& id . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . query (& progenitor_client :: QueryParam :: new ("mode" , & mode)) . headers (header_map) . header (:: reqwest :: header :: CONNECTION , "Upgrade") . header (:: reqwest :: header :: UPGRADE , "websocket") . header (:: reqwest :: header :: SEC_WEBSOCKET_VERSION , "13") . header (:: reqwest :: header :: SEC_WEBSOCKET_KEY , :: base64 :: Engine :: encode (& :: base64 :: engine :: general_purpose :: STANDARD , :: rand :: random :: < [u8 ; 16] > () ,)) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            101u16 => {
                ResponseValue :: upgrade (response) . await
            }
            200 ..= 299 => {
                ResponseValue :: upgrade (response) . await
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/wst/{id}`\n\n"] pub async fn channel_typed < 'a > (& 'a self , id : & 'a str , x_op : & 'a str) -> Result < ResponseValue < reqwest :: Upgraded > , Error < types :: ThingError > , > {
        let url = format ! ("{}/wst/{}" , self . baseurl , encode_path (& id . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . headers (header_map) . header (:: reqwest :: header :: CONNECTION , "Upgrade") . header (:: reqwest :: header :: UPGRADE , "websocket") . header (:: reqwest :: header :: SEC_WEBSOCKET_VERSION , "13") . header (:: reqwest :: header :: SEC_WEBSOCKET_KEY , :: base64 :: Engine :: encode (& :: base64 :: engine :: general_purpose :: STANDARD , :: rand :: random :: < [u8 ; 16] > () ,)) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            101u16 => {
                ResponseValue :: upgrade (response) . await
            }
            200u16 => {
                ResponseValue :: upgrade (response) . await
            }
            400u16 ..= 499u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `POST` request to `/nothing/{a}-{b}.x`\n\n"] pub async fn do_nothing < 'a > (& 'a self , a : & 'a str , b : & 'a str , x_op : & 'a str) -> Result < ResponseValue < () > , Error < types :: ThingError > , > {
        let url = format ! ("{}/nothing/{}-{}.x" , self . baseurl , encode_path (& a . to_string ()) , encode_path (& b . to_string ()) ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . post (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200 ..= 299 => {
                Ok (ResponseValue :: empty (response))
            }
            _ => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/onlyerr`\n\n"] pub async fn only_errors < 'a > (& 'a self , x_op : & 'a str) -> Result < ResponseValue < ByteStream > , Error < types :: ThingError > , > {
        let url = format ! ("{}/onlyerr" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200 ..= 299 => {
                Ok (ResponseValue :: stream (response))
            }
            404u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/opt`\n\n"] pub async fn opt_json < 'a > (& 'a self , x_op : & 'a str) -> Result < ResponseValue < :: std :: option :: Option < types :: OptJsonResponse > > , Error < () > , > {
        let url = format ! ("{}/opt" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                ResponseValue :: from_response (response) . await
            }
            500u16 ..= 599u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: empty (response)))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/scalar`\n\n"] pub async fn scalar_json < 'a > (& 'a self , x_op : & 'a str) -> Result < ResponseValue < i64 > , Error < :: std :: string :: String > , > {
        let url = format ! ("{}/scalar" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200 ..= 299 => {
                ResponseValue :: from_response (response) . await
            }
            _ => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/any`\n\n"] pub async fn any_json < 'a > (& 'a self , x_op : & 'a str) -> Result < ResponseValue < types :: Any > , Error < types :: Any > , > {
        let url = format ! ("{}/any" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200 ..= 299 => {
                ResponseValue :: from_response (response) . await
            }
            _ => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }

        }

    }
    # [doc = "Sends a `GET` request to `/map`\n\n"] pub async fn map_json < 'a > (& 'a self , x_op : & 'a str) -> Result < ResponseValue < :: std :: collections :: HashMap < :: std :: string :: String , i64 > > , Error < :: std :: vec :: Vec < :: std :: string :: String > > , > {
        let url = format ! ("{}/map" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            203u16 => {
                ResponseValue :: from_response (response) . await
            }
            418u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: from_response (response) . await ?))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/`\n\n"] pub async fn root_get < 'a > (& 'a self , x_op : & 'a str) -> Result < ResponseValue < () > , Error < ByteStream > , > {
        let url = format ! ("{}/" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                Ok (ResponseValue :: empty (response))
            }
            500u16 ..= 599u16 => {
                Err (Error :: ErrorResponse (ResponseValue :: stream (response)))
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }
    # [doc = "Sends a `GET` request to `/objq`\n\n"] pub async fn obj_query < 'a > (& 'a self , filter : & 'a types :: Patch , m : & 'a :: std :: collections :: HashMap < :: std :: string :: String , :: std :: string :: String > , zz : Option < & 'a str > , x_op : & 'a str) -> Result < ResponseValue < :: std :: string :: String > , Error < () > , > {
        let url = format ! ("{}/objq" , self . baseurl ,) ;
        let mut header_map = :: reqwest :: header :: HeaderMap :: with_capacity (2usize) ;
        header_map . append (:: reqwest :: header :: HeaderName :: from_static ("api-version") , :: reqwest :: header :: HeaderValue :: from_static (self . api_version ()) ,) ;
        header_map . append ("x-op" , x_op . to_string () . try_into () ?) ;
        # [allow (unused_mut)] let mut request = self . client . get (url) . header (:: reqwest :: header :: ACCEPT , :: reqwest :: header :: HeaderValue :: from_static ("application/json" ,) ,) . query (& progenitor_client :: QueryParam :: new ("filter" , & filter)) . query (& progenitor_client :: QueryParam :: new ("m" , & m)) . query (& progenitor_client :: QueryParam :: new ("zz" , & zz)) . headers (header_map) . build () ? ;
        (crate :: hooks :: pre) (& self . inner , & request) ;
        match (crate :: hooks :: pre_async) (& self . inner , & mut request) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PreHookError (e . to_string ())) ,
        }
        let result = self . client . execute (request) . await ;
        (crate :: hooks :: post) (& self . inner , & result) ;
        match (crate :: hooks :: post_async) (& self . inner , & result) . await {
            Ok (_) => () , Err (e) => return Err (Error :: PostHookError (e . to_string ())) ,
        }
        let response = result ? ;
        match response . status () . as_u16 () {
            200u16 => {
                ResponseValue :: from_response (response) . await
            }
            _ => Err (Error :: UnexpectedResponse (response)) ,
        }

    }

}
# [doc = r" Items consumers will typically use such as the Client."] pub mod prelude {
    # [allow (unused_imports)] pub use super :: Client ;

}

