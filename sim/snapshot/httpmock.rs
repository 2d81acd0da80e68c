pub mod operations {
    # ! [doc = r" [`When`](::httpmock::When) and [`Then`](::httpmock::Then)"] # ! [doc = r" wrappers for each operation. Each can be converted to"] # ! [doc = r" its inner type with a call to `into_inner()`. This can"] # ! [doc = r" be used to explicitly deviate from permitted values."] use crate :: clients :: positional :: * ;
    pub struct ThingGetWhen (:: httpmock :: When) ;
    impl ThingGetWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/things/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn id (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/things/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct ThingGetThen (:: httpmock :: Then) ;
    impl ThingGetThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn ok (self , value : & types :: Thing ,) -> Self {
            Self (self . 0 . status (200u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn client_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn server_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 5u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct ThingDeleteWhen (:: httpmock :: When) ;
    impl ThingDeleteWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: DELETE) . path_matches (regex :: Regex :: new ("^/things/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn id (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/things/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct ThingDeleteThen (:: httpmock :: Then) ;
    impl ThingDeleteThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn no_content (self ,) -> Self {
            Self (self . 0 . status (204u16))
        }
        pub fn client_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn server_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 5u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct ThingHeadWhen (:: httpmock :: When) ;
    impl ThingHeadWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: HEAD) . path_matches (regex :: Regex :: new ("^/things/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn id (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/things/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct ThingHeadThen (:: httpmock :: Then) ;
    impl ThingHeadThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn ok (self ,) -> Self {
            Self (self . 0 . status (200u16))
        }
        pub fn not_found (self ,) -> Self {
            Self (self . 0 . status (404u16))
        }

    }
    pub struct ThingPatchWhen (:: httpmock :: When) ;
    impl ThingPatchWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: PATCH) . path_matches (regex :: Regex :: new ("^/things/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn id (self , value : & :: uuid :: Uuid) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/things/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }
        pub fn body (self , value : & types :: Patch) -> Self {
            Self (self . 0 . json_body_obj (value))
        }

    }
    pub struct ThingPatchThen (:: httpmock :: Then) ;
    impl ThingPatchThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn success (self , status : u16 , value : & types :: Patch ,) -> Self {
            assert_eq ! (status / 100u16 , 2u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn not_found (self , value : & types :: ThingError ,) -> Self {
            Self (self . 0 . status (404u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn conflict (self , value : & types :: ThingError ,) -> Self {
            Self (self . 0 . status (409u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct ThingListWhen (:: httpmock :: When) ;
    impl ThingListWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/things$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn filter < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("filter" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "filter")
                    }) . is_none ()
                }))
            }

        }
        pub fn limit < T > (self , value : T ,) -> Self where T : Into < Option < :: std :: num :: NonZeroU32 >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("limit" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "limit")
                    }) . is_none ()
                }))
            }

        }
        pub fn page_token < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("page_token" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "page_token")
                    }) . is_none ()
                }))
            }

        }
        pub fn sort < T > (self , value : T ,) -> Self where T : Into < Option < types :: Kind >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("sort" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "sort")
                    }) . is_none ()
                }))
            }

        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct ThingListThen (:: httpmock :: Then) ;
    impl ThingListThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn ok (self , value : & types :: ThingPage ,) -> Self {
            Self (self . 0 . status (200u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn client_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn server_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 5u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct ThingCreateWhen (:: httpmock :: When) ;
    impl ThingCreateWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: POST) . path_matches (regex :: Regex :: new ("^/things$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }
        pub fn body (self , value : & types :: Thing) -> Self {
            Self (self . 0 . json_body_obj (value))
        }

    }
    pub struct ThingCreateThen (:: httpmock :: Then) ;
    impl ThingCreateThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn created (self , value : & types :: Thing ,) -> Self {
            Self (self . 0 . status (201u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn client_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn server_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 5u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct ThingPutWhen (:: httpmock :: When) ;
    impl ThingPutWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: PUT) . path_matches (regex :: Regex :: new ("^/v1/[^/]*/things/[^/]*/parts/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn project (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/v1/{}/things/.*/parts/.*$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn id (self , value : & types :: Name) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/v1/.*/things/{}/parts/.*$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn part_no (self , value : u32) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/v1/.*/things/.*/parts/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }
        pub fn body (self , value : & types :: Thing) -> Self {
            Self (self . 0 . json_body_obj (value))
        }

    }
    pub struct ThingPutThen (:: httpmock :: Then) ;
    impl ThingPutThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn default_response (self , status : u16 , value : & types :: ThingError ,) -> Self {
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn success (self , status : u16 , value : & types :: Thing ,) -> Self {
            assert_eq ! (status / 100u16 , 2u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct ProjListWhen (:: httpmock :: When) ;
    impl ProjListWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/projects/[^/]*/things/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn project (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/projects/{}/things/.*$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn kind (self , value : types :: Kind) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/projects/.*/things/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn limit < T > (self , value : T ,) -> Self where T : Into < Option < :: std :: num :: NonZeroU32 >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("limit" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "limit")
                    }) . is_none ()
                }))
            }

        }
        pub fn page_token < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("page_token" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "page_token")
                    }) . is_none ()
                }))
            }

        }
        pub fn selector < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("selector" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "selector")
                    }) . is_none ()
                }))
            }

        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }
        pub fn x_scope (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct ProjListThen (:: httpmock :: Then) ;
    impl ProjListThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn ok (self , value : & types :: ThingPage ,) -> Self {
            Self (self . 0 . status (200u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn client_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn server_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 5u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct RawGetWhen (:: httpmock :: When) ;
    impl RawGetWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/raw/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn name (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/raw/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct RawGetThen (:: httpmock :: Then) ;
    impl RawGetThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn ok (self , value : serde_json :: Value ,) -> Self {
            Self (self . 0 . status (200u16) . header ("content-type" , "application/json") . json_body (value))
        }
        pub fn partial_content (self , value : serde_json :: Value ,) -> Self {
            Self (self . 0 . status (206u16) . header ("content-type" , "application/json") . json_body (value))
        }
        pub fn client_error (self , status : u16 , value : serde_json :: Value ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body (value))
        }

    }
    pub struct RawDefaultWhen (:: httpmock :: When) ;
    impl RawDefaultWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/rawdef$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn q < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("q" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "q")
                    }) . is_none ()
                }))
            }

        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct RawDefaultThen (:: httpmock :: Then) ;
    impl RawDefaultThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn default_response (self , status : u16 , value : serde_json :: Value ,) -> Self {
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body (value))
        }

    }
    pub struct UploadOctetWhen (:: httpmock :: When) ;
    impl UploadOctetWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: PUT) . path_matches (regex :: Regex :: new ("^/up/octet/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn name (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/up/octet/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }
        pub fn body (self , value : serde_json :: Value) -> Self {
            Self (self . 0 . json_body (value))
        }

    }
    pub struct UploadOctetThen (:: httpmock :: Then) ;
    impl UploadOctetThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn no_content (self ,) -> Self {
            Self (self . 0 . status (204u16))
        }
        pub fn client_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct UploadTextWhen (:: httpmock :: When) ;
    impl UploadTextWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: PUT) . path_matches (regex :: Regex :: new ("^/up/text$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn mode < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("mode" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "mode")
                    }) . is_none ()
                }))
            }

        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }
        pub fn body (self , value : String) -> Self {
            Self (self . 0 . body (value))
        }

    }
    pub struct UploadTextThen (:: httpmock :: Then) ;
    impl UploadTextThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn ok (self ,) -> Self {
            Self (self . 0 . status (200u16))
        }
        pub fn client_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct UploadMdWhen (:: httpmock :: When) ;
    impl UploadMdWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: POST) . path_matches (regex :: Regex :: new ("^/up/md$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }
        pub fn body (self , value : String) -> Self {
            Self (self . 0 . body (value))
        }

    }
    pub struct UploadMdThen (:: httpmock :: Then) ;
    impl UploadMdThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn default_response (self , status : u16 , value : & types :: ThingError ,) -> Self {
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn success (self , status : u16 ,) -> Self {
            assert_eq ! (status / 100u16 , 2u16) ;
            Self (self . 0 . status (status))
        }

    }
    pub struct FormPostWhen (:: httpmock :: When) ;
    impl FormPostWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: POST) . path_matches (regex :: Regex :: new ("^/form$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }
        pub fn body (self , value : & types :: Form) -> Self {
            Self (self . 0 . json_body_obj (value))
        }

    }
    pub struct FormPostThen (:: httpmock :: Then) ;
    impl FormPostThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn ok (self , value : & types :: Thing ,) -> Self {
            Self (self . 0 . status (200u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn client_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct SearchWhen (:: httpmock :: When) ;
    impl SearchWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/search/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn when (self , value : & :: chrono :: DateTime <:: chrono :: offset :: Utc >) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/search/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn a_b_c_d < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("a_b_c_d" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "a_b_c_d")
                    }) . is_none ()
                }))
            }

        }
        pub fn b < T > (self , value : T ,) -> Self where T : Into < Option < bool >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("b" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "b")
                    }) . is_none ()
                }))
            }

        }
        pub fn client < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("client" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "client")
                    }) . is_none ()
                }))
            }

        }
        pub fn f < T > (self , value : T ,) -> Self where T : Into < Option < f64 >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("f" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "f")
                    }) . is_none ()
                }))
            }

        }
        pub fn id < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a :: uuid :: Uuid >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("id" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "id")
                    }) . is_none ()
                }))
            }

        }
        pub fn kind < T > (self , value : T ,) -> Self where T : Into < Option < types :: Kind >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("kind" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "kind")
                    }) . is_none ()
                }))
            }

        }
        pub fn n < T > (self , value : T ,) -> Self where T : Into < Option < i64 >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("n" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "n")
                    }) . is_none ()
                }))
            }

        }
        pub fn name < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a types :: Name >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("name" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "name")
                    }) . is_none ()
                }))
            }

        }
        pub fn q (self , value : & str) -> Self {
            Self (self . 0 . query_param ("q" , value . to_string ()))
        }
        pub fn request < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("request" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "request")
                    }) . is_none ()
                }))
            }

        }
        pub fn self_ < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("self_" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "self_")
                    }) . is_none ()
                }))
            }

        }
        pub fn type_ < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("type_" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "type_")
                    }) . is_none ()
                }))
            }

        }
        pub fn u < T > (self , value : T ,) -> Self where T : Into < Option < u64 >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("u" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "u")
                    }) . is_none ()
                }))
            }

        }
        pub fn url < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("url" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "url")
                    }) . is_none ()
                }))
            }

        }
        pub fn x_kind (self , value : types :: Kind) -> Self {
            todo ! ()
        }
        pub fn x_num (self , value : i32) -> Self {
            todo ! ()
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }
        pub fn x_text (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct SearchThen (:: httpmock :: Then) ;
    impl SearchThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn ok (self , value : & :: std :: vec :: Vec < types :: Thing > ,) -> Self {
            Self (self . 0 . status (200u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn client_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct ChannelWhen (:: httpmock :: When) ;
    impl ChannelWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/ws/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn id (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/ws/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn mode < 'a , T > (self , value : T ,) -> Self where T : Into < Option < & 'a str >> , {
            if let Some (value) = value . into () {
                Self (self . 0 . query_param ("mode" , value . to_string () ,))
            }
            else {
                Self (self . 0 . matches (| req | {
                    req . query_params . as_ref () . and_then (| qs | {
                        qs . iter () . find (| (key , _) | key == "mode")
                    }) . is_none ()
                }))
            }

        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct ChannelThen (:: httpmock :: Then) ;
    impl ChannelThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn default_response (self , status : u16 ,) -> Self {
            Self (self . 0 . status (status))
        }
        pub fn switching_protocols (self ,) -> Self {
            Self (self . 0 . status (101u16))
        }

    }
    pub struct ChannelTypedWhen (:: httpmock :: When) ;
    impl ChannelTypedWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/wst/[^/]*$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn id (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/wst/{}$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct ChannelTypedThen (:: httpmock :: Then) ;
    impl ChannelTypedThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn ok (self ,) -> Self {
            Self (self . 0 . status (200u16))
        }
        pub fn client_error (self , status : u16 , value : & types :: ThingError ,) -> Self {
            assert_eq ! (status / 100u16 , 4u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn switching_protocols (self ,) -> Self {
            Self (self . 0 . status (101u16))
        }

    }
    pub struct DoNothingWhen (:: httpmock :: When) ;
    impl DoNothingWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: POST) . path_matches (regex :: Regex :: new ("^/nothing/[^/]*-[^/]*.x$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn a (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/nothing/{}-.*.x$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn b (self , value : & str) -> Self {
            let re = regex :: Regex :: new (& format ! ("^/nothing/.*-{}.x$" , value . to_string ())) . unwrap () ;
            Self (self . 0 . path_matches (re))
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct DoNothingThen (:: httpmock :: Then) ;
    impl DoNothingThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn default_response (self , status : u16 , value : & types :: ThingError ,) -> Self {
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn success (self , status : u16 ,) -> Self {
            assert_eq ! (status / 100u16 , 2u16) ;
            Self (self . 0 . status (status))
        }

    }
    pub struct OnlyErrorsWhen (:: httpmock :: When) ;
    impl OnlyErrorsWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/onlyerr$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct OnlyErrorsThen (:: httpmock :: Then) ;
    impl OnlyErrorsThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn not_found (self , value : & types :: ThingError ,) -> Self {
            Self (self . 0 . status (404u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn success (self , status : u16 , value : serde_json :: Value ,) -> Self {
            assert_eq ! (status / 100u16 , 2u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body (value))
        }

    }
    pub struct AnyJsonWhen (:: httpmock :: When) ;
    impl AnyJsonWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/any$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct AnyJsonThen (:: httpmock :: Then) ;
    impl AnyJsonThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn default_response (self , status : u16 , value : & types :: Any ,) -> Self {
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct MapJsonWhen (:: httpmock :: When) ;
    impl MapJsonWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/map$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct MapJsonThen (:: httpmock :: Then) ;
    impl MapJsonThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn non_authoritative_information (self , value : & :: std :: collections :: HashMap < :: std :: string :: String , i64 > ,) -> Self {
            Self (self . 0 . status (203u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }
        pub fn im_a_teapot (self , value : & :: std :: vec :: Vec < :: std :: string :: String > ,) -> Self {
            Self (self . 0 . status (418u16) . header ("content-type" , "application/json") . json_body_obj (value))
        }

    }
    pub struct RootGetWhen (:: httpmock :: When) ;
    impl RootGetWhen {
        pub fn new (inner : :: httpmock :: When) -> Self {
            Self (inner . method (:: httpmock :: Method :: GET) . path_matches (regex :: Regex :: new ("^/$") . unwrap ()))
        }
        pub fn into_inner (self) -> :: httpmock :: When {
            self . 0
        }
        pub fn x_op (self , value : & str) -> Self {
            todo ! ()
        }

    }
    pub struct RootGetThen (:: httpmock :: Then) ;
    impl RootGetThen {
        pub fn new (inner : :: httpmock :: Then) -> Self {
            Self (inner)
        }
        pub fn into_inner (self) -> :: httpmock :: Then {
            self . 0
        }
        pub fn ok (self ,) -> Self {
            Self (self . 0 . status (200u16))
        }
        pub fn server_error (self , status : u16 , value : serde_json :: Value ,) -> Self {
            assert_eq ! (status / 100u16 , 5u16) ;
            Self (self . 0 . status (status) . header ("content-type" , "application/json") . json_body (value))
        }

    }

}
# [doc = r" An extension trait for [`MockServer`](::httpmock::MockServer) that"] # [doc = r" adds a method for each operation. These are the equivalent of"] # [doc = r" type-checked [`mock()`](::httpmock::MockServer::mock) calls."] pub trait MockServerExt {
    fn thing_get < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingGetWhen , operations :: ThingGetThen) ;
    fn thing_delete < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingDeleteWhen , operations :: ThingDeleteThen) ;
    fn thing_head < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingHeadWhen , operations :: ThingHeadThen) ;
    fn thing_patch < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingPatchWhen , operations :: ThingPatchThen) ;
    fn thing_list < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingListWhen , operations :: ThingListThen) ;
    fn thing_create < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingCreateWhen , operations :: ThingCreateThen) ;
    fn thing_put < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingPutWhen , operations :: ThingPutThen) ;
    fn proj_list < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ProjListWhen , operations :: ProjListThen) ;
    fn raw_get < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: RawGetWhen , operations :: RawGetThen) ;
    fn raw_default < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: RawDefaultWhen , operations :: RawDefaultThen) ;
    fn upload_octet < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: UploadOctetWhen , operations :: UploadOctetThen) ;
    fn upload_text < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: UploadTextWhen , operations :: UploadTextThen) ;
    fn upload_md < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: UploadMdWhen , operations :: UploadMdThen) ;
    fn form_post < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: FormPostWhen , operations :: FormPostThen) ;
    fn search < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: SearchWhen , operations :: SearchThen) ;
    fn channel < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ChannelWhen , operations :: ChannelThen) ;
    fn channel_typed < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ChannelTypedWhen , operations :: ChannelTypedThen) ;
    fn do_nothing < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: DoNothingWhen , operations :: DoNothingThen) ;
    fn only_errors < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: OnlyErrorsWhen , operations :: OnlyErrorsThen) ;
    fn any_json < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: AnyJsonWhen , operations :: AnyJsonThen) ;
    fn map_json < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: MapJsonWhen , operations :: MapJsonThen) ;
    fn root_get < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: RootGetWhen , operations :: RootGetThen) ;

}
impl MockServerExt for :: httpmock :: MockServer {
    fn thing_get < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingGetWhen , operations :: ThingGetThen) {
        self . mock (| when , then | {
            config_fn (operations :: ThingGetWhen :: new (when) , operations :: ThingGetThen :: new (then) ,)
        })
    }
    fn thing_delete < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingDeleteWhen , operations :: ThingDeleteThen) {
        self . mock (| when , then | {
            config_fn (operations :: ThingDeleteWhen :: new (when) , operations :: ThingDeleteThen :: new (then) ,)
        })
    }
    fn thing_head < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingHeadWhen , operations :: ThingHeadThen) {
        self . mock (| when , then | {
            config_fn (operations :: ThingHeadWhen :: new (when) , operations :: ThingHeadThen :: new (then) ,)
        })
    }
    fn thing_patch < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingPatchWhen , operations :: ThingPatchThen) {
        self . mock (| when , then | {
            config_fn (operations :: ThingPatchWhen :: new (when) , operations :: ThingPatchThen :: new (then) ,)
        })
    }
    fn thing_list < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingListWhen , operations :: ThingListThen) {
        self . mock (| when , then | {
            config_fn (operations :: ThingListWhen :: new (when) , operations :: ThingListThen :: new (then) ,)
        })
    }
    fn thing_create < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingCreateWhen , operations :: ThingCreateThen) {
        self . mock (| when , then | {
            config_fn (operations :: ThingCreateWhen :: new (when) , operations :: ThingCreateThen :: new (then) ,)
        })
    }
    fn thing_put < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ThingPutWhen , operations :: ThingPutThen) {
        self . mock (| when , then | {
            config_fn (operations :: ThingPutWhen :: new (when) , operations :: ThingPutThen :: new (then) ,)
        })
    }
    fn proj_list < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ProjListWhen , operations :: ProjListThen) {
        self . mock (| when , then | {
            config_fn (operations :: ProjListWhen :: new (when) , operations :: ProjListThen :: new (then) ,)
        })
    }
    fn raw_get < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: RawGetWhen , operations :: RawGetThen) {
        self . mock (| when , then | {
            config_fn (operations :: RawGetWhen :: new (when) , operations :: RawGetThen :: new (then) ,)
        })
    }
    fn raw_default < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: RawDefaultWhen , operations :: RawDefaultThen) {
        self . mock (| when , then | {
            config_fn (operations :: RawDefaultWhen :: new (when) , operations :: RawDefaultThen :: new (then) ,)
        })
    }
    fn upload_octet < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: UploadOctetWhen , operations :: UploadOctetThen) {
        self . mock (| when , then | {
            config_fn (operations :: UploadOctetWhen :: new (when) , operations :: UploadOctetThen :: new (then) ,)
        })
    }
    fn upload_text < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: UploadTextWhen , operations :: UploadTextThen) {
        self . mock (| when , then | {
            config_fn (operations :: UploadTextWhen :: new (when) , operations :: UploadTextThen :: new (then) ,)
        })
    }
    fn upload_md < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: UploadMdWhen , operations :: UploadMdThen) {
        self . mock (| when , then | {
            config_fn (operations :: UploadMdWhen :: new (when) , operations :: UploadMdThen :: new (then) ,)
        })
    }
    fn form_post < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: FormPostWhen , operations :: FormPostThen) {
        self . mock (| when , then | {
            config_fn (operations :: FormPostWhen :: new (when) , operations :: FormPostThen :: new (then) ,)
        })
    }
    fn search < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: SearchWhen , operations :: SearchThen) {
        self . mock (| when , then | {
            config_fn (operations :: SearchWhen :: new (when) , operations :: SearchThen :: new (then) ,)
        })
    }
    fn channel < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ChannelWhen , operations :: ChannelThen) {
        self . mock (| when , then | {
            config_fn (operations :: ChannelWhen :: new (when) , operations :: ChannelThen :: new (then) ,)
        })
    }
    fn channel_typed < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: ChannelTypedWhen , operations :: ChannelTypedThen) {
        self . mock (| when , then | {
            config_fn (operations :: ChannelTypedWhen :: new (when) , operations :: ChannelTypedThen :: new (then) ,)
        })
    }
    fn do_nothing < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: DoNothingWhen , operations :: DoNothingThen) {
        self . mock (| when , then | {
            config_fn (operations :: DoNothingWhen :: new (when) , operations :: DoNothingThen :: new (then) ,)
        })
    }
    fn only_errors < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: OnlyErrorsWhen , operations :: OnlyErrorsThen) {
        self . mock (| when , then | {
            config_fn (operations :: OnlyErrorsWhen :: new (when) , operations :: OnlyErrorsThen :: new (then) ,)
        })
    }
    fn any_json < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: AnyJsonWhen , operations :: AnyJsonThen) {
        self . mock (| when , then | {
            config_fn (operations :: AnyJsonWhen :: new (when) , operations :: AnyJsonThen :: new (then) ,)
        })
    }
    fn map_json < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: MapJsonWhen , operations :: MapJsonThen) {
        self . mock (| when , then | {
            config_fn (operations :: MapJsonWhen :: new (when) , operations :: MapJsonThen :: new (then) ,)
        })
    }
    fn root_get < F > (& self , config_fn : F) -> :: httpmock :: Mock where F : FnOnce (operations :: RootGetWhen , operations :: RootGetThen) {
        self . mock (| when , then | {
            config_fn (operations :: RootGetWhen :: new (when) , operations :: RootGetThen :: new (then) ,)
        })
    }

}

