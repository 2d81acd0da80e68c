use crate :: clients :: builder :: * ;
pub struct Cli < T : CliConfig > {
    client : Client , config : T ,
}
impl < T : CliConfig > Cli < T > {
    pub fn new (client : Client , config : T ,) -> Self {
        Self {
            client , config
        }

    }
    pub fn get_command (cmd : CliCommand) -> :: clap :: Command {
        match cmd {
            CliCommand :: ThingGet => Self :: cli_thing_get () , CliCommand :: ThingDelete => Self :: cli_thing_delete () , CliCommand :: ThingHead => Self :: cli_thing_head () , CliCommand :: ThingPatch => Self :: cli_thing_patch () , CliCommand :: ThingList => Self :: cli_thing_list () , CliCommand :: ThingCreate => Self :: cli_thing_create () , CliCommand :: ThingPut => Self :: cli_thing_put () , CliCommand :: ProjList => Self :: cli_proj_list () , CliCommand :: RawGet => Self :: cli_raw_get () , CliCommand :: RawDefault => Self :: cli_raw_default () , CliCommand :: UploadOctet => Self :: cli_upload_octet () , CliCommand :: UploadText => Self :: cli_upload_text () , CliCommand :: UploadMd => Self :: cli_upload_md () , CliCommand :: FormPost => Self :: cli_form_post () , CliCommand :: Channel => Self :: cli_channel () , CliCommand :: ChannelTyped => Self :: cli_channel_typed () , CliCommand :: DoNothing => Self :: cli_do_nothing () , CliCommand :: OnlyErrors => Self :: cli_only_errors () , CliCommand :: OptJson => Self :: cli_opt_json () , CliCommand :: ScalarJson => Self :: cli_scalar_json () , CliCommand :: AnyJson => Self :: cli_any_json () , CliCommand :: MapJson => Self :: cli_map_json () , CliCommand :: RootGet => Self :: cli_root_get () ,
        }

    }
    pub fn cli_thing_get () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("id") . long ("id") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_thing_delete () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("id") . long ("id") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_thing_head () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("id") . long ("id") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_thing_patch () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("id") . long ("id") . value_parser (:: clap :: value_parser ! (:: uuid :: Uuid)) . required (true)) . arg (:: clap :: Arg :: new ("level") . long ("level") . value_parser (:: clap :: value_parser ! (i64)) . required (false)) . arg (:: clap :: Arg :: new ("name") . long ("name") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (false)) . arg (:: clap :: Arg :: new ("on") . long ("on") . value_parser (:: clap :: value_parser ! (bool)) . required (false)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("json-body") . long ("json-body") . value_name ("JSON-FILE") . required (false) . value_parser (:: clap :: value_parser ! (std :: path :: PathBuf)) . help ("Path to a file that contains the full json body.")) . arg (:: clap :: Arg :: new ("json-body-template") . long ("json-body-template") . action (:: clap :: ArgAction :: SetTrue) . help ("XXX"))
    }
    pub fn cli_thing_list () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("filter") . long ("filter") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (false)) . arg (:: clap :: Arg :: new ("limit") . long ("limit") . value_parser (:: clap :: value_parser ! (:: std :: num :: NonZeroU32)) . required (false)) . arg (:: clap :: Arg :: new ("sort") . long ("sort") . value_parser (:: clap :: builder :: TypedValueParser :: map (:: clap :: builder :: PossibleValuesParser :: new ([types :: Kind :: Alpha . to_string () , types :: Kind :: BeTa . to_string () , types :: Kind :: GaMma . to_string () ,]) , | s | types :: Kind :: try_from (s) . unwrap ())) . required (false)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_thing_create () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("id") . long ("id") . value_parser (:: clap :: value_parser ! (u64)) . required_unless_present ("json-body")) . arg (:: clap :: Arg :: new ("kind") . long ("kind") . value_parser (:: clap :: builder :: TypedValueParser :: map (:: clap :: builder :: PossibleValuesParser :: new ([types :: Kind :: Alpha . to_string () , types :: Kind :: BeTa . to_string () , types :: Kind :: GaMma . to_string () ,]) , | s | types :: Kind :: try_from (s) . unwrap ())) . required_unless_present ("json-body")) . arg (:: clap :: Arg :: new ("made") . long ("made") . value_parser (:: clap :: value_parser ! (:: chrono :: DateTime <:: chrono :: offset :: Utc >)) . required (false)) . arg (:: clap :: Arg :: new ("name") . long ("name") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required_unless_present ("json-body")) . arg (:: clap :: Arg :: new ("note") . long ("note") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (false)) . arg (:: clap :: Arg :: new ("type") . long ("type") . value_parser (:: clap :: value_parser ! (i32)) . required (false)) . arg (:: clap :: Arg :: new ("weight") . long ("weight") . value_parser (:: clap :: value_parser ! (f64)) . required (false)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("json-body") . long ("json-body") . value_name ("JSON-FILE") . required (true) . value_parser (:: clap :: value_parser ! (std :: path :: PathBuf)) . help ("Path to a file that contains the full json body.")) . arg (:: clap :: Arg :: new ("json-body-template") . long ("json-body-template") . action (:: clap :: ArgAction :: SetTrue) . help ("XXX"))
    }
    pub fn cli_thing_put () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("id") . long ("id") . value_parser (:: clap :: value_parser ! (types :: Name)) . required (true)) . arg (:: clap :: Arg :: new ("kind") . long ("kind") . value_parser (:: clap :: builder :: TypedValueParser :: map (:: clap :: builder :: PossibleValuesParser :: new ([types :: Kind :: Alpha . to_string () , types :: Kind :: BeTa . to_string () , types :: Kind :: GaMma . to_string () ,]) , | s | types :: Kind :: try_from (s) . unwrap ())) . required_unless_present ("json-body")) . arg (:: clap :: Arg :: new ("made") . long ("made") . value_parser (:: clap :: value_parser ! (:: chrono :: DateTime <:: chrono :: offset :: Utc >)) . required (false)) . arg (:: clap :: Arg :: new ("name") . long ("name") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required_unless_present ("json-body")) . arg (:: clap :: Arg :: new ("note") . long ("note") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (false)) . arg (:: clap :: Arg :: new ("part-no") . long ("part-no") . value_parser (:: clap :: value_parser ! (u32)) . required (true)) . arg (:: clap :: Arg :: new ("project") . long ("project") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("type") . long ("type") . value_parser (:: clap :: value_parser ! (i32)) . required (false)) . arg (:: clap :: Arg :: new ("weight") . long ("weight") . value_parser (:: clap :: value_parser ! (f64)) . required (false)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("json-body") . long ("json-body") . value_name ("JSON-FILE") . required (true) . value_parser (:: clap :: value_parser ! (std :: path :: PathBuf)) . help ("Path to a file that contains the full json body.")) . arg (:: clap :: Arg :: new ("json-body-template") . long ("json-body-template") . action (:: clap :: ArgAction :: SetTrue) . help ("XXX"))
    }
    pub fn cli_proj_list () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("kind") . long ("kind") . value_parser (:: clap :: builder :: TypedValueParser :: map (:: clap :: builder :: PossibleValuesParser :: new ([types :: Kind :: Alpha . to_string () , types :: Kind :: BeTa . to_string () , types :: Kind :: GaMma . to_string () ,]) , | s | types :: Kind :: try_from (s) . unwrap ())) . required (true)) . arg (:: clap :: Arg :: new ("limit") . long ("limit") . value_parser (:: clap :: value_parser ! (:: std :: num :: NonZeroU32)) . required (false)) . arg (:: clap :: Arg :: new ("project") . long ("project") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("selector") . long ("selector") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("x-scope") . long ("x-scope") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_raw_get () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("name") . long ("name") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_raw_default () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("q") . long ("q") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (false)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_upload_octet () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("name") . long ("name") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_upload_text () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("mode") . long ("mode") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (false)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_upload_md () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_form_post () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("a") . long ("a") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required_unless_present ("json-body")) . arg (:: clap :: Arg :: new ("count") . long ("count") . value_parser (:: clap :: value_parser ! (u32)) . required_unless_present ("json-body")) . arg (:: clap :: Arg :: new ("flag") . long ("flag") . value_parser (:: clap :: value_parser ! (bool)) . required (false)) . arg (:: clap :: Arg :: new ("kind") . long ("kind") . value_parser (:: clap :: builder :: TypedValueParser :: map (:: clap :: builder :: PossibleValuesParser :: new ([types :: Kind :: Alpha . to_string () , types :: Kind :: BeTa . to_string () , types :: Kind :: GaMma . to_string () ,]) , | s | types :: Kind :: try_from (s) . unwrap ())) . required (false)) . arg (:: clap :: Arg :: new ("odd-name") . long ("odd-name") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (false)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("json-body") . long ("json-body") . value_name ("JSON-FILE") . required (false) . value_parser (:: clap :: value_parser ! (std :: path :: PathBuf)) . help ("Path to a file that contains the full json body.")) . arg (:: clap :: Arg :: new ("json-body-template") . long ("json-body-template") . action (:: clap :: ArgAction :: SetTrue) . help ("XXX"))
    }
    pub fn cli_channel () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("id") . long ("id") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("mode") . long ("mode") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (false)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_channel_typed () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("id") . long ("id") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_do_nothing () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("a") . long ("a") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("b") . long ("b") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true)) . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_only_errors () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_opt_json () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_scalar_json () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_any_json () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_map_json () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub fn cli_root_get () -> :: clap :: Command {
        :: clap :: Command :: new ("") . arg (:: clap :: Arg :: new ("x-op") . long ("x-op") . value_parser (:: clap :: value_parser ! (:: std :: string :: String)) . required (true))
    }
    pub async fn execute (& self , cmd : CliCommand , matches : & :: clap :: ArgMatches ,) -> anyhow :: Result < () > {
        match cmd {
            CliCommand :: ThingGet => {
                self . execute_thing_get (matches) . await
            }
            CliCommand :: ThingDelete => {
                self . execute_thing_delete (matches) . await
            }
            CliCommand :: ThingHead => {
                self . execute_thing_head (matches) . await
            }
            CliCommand :: ThingPatch => {
                self . execute_thing_patch (matches) . await
            }
            CliCommand :: ThingList => {
                self . execute_thing_list (matches) . await
            }
            CliCommand :: ThingCreate => {
                self . execute_thing_create (matches) . await
            }
            CliCommand :: ThingPut => {
                self . execute_thing_put (matches) . await
            }
            CliCommand :: ProjList => {
                self . execute_proj_list (matches) . await
            }
            CliCommand :: RawGet => {
                self . execute_raw_get (matches) . await
            }
            CliCommand :: RawDefault => {
                self . execute_raw_default (matches) . await
            }
            CliCommand :: UploadOctet => {
                self . execute_upload_octet (matches) . await
            }
            CliCommand :: UploadText => {
                self . execute_upload_text (matches) . await
            }
            CliCommand :: UploadMd => {
                self . execute_upload_md (matches) . await
            }
            CliCommand :: FormPost => {
                self . execute_form_post (matches) . await
            }
            CliCommand :: Channel => {
                self . execute_channel (matches) . await
            }
            CliCommand :: ChannelTyped => {
                self . execute_channel_typed (matches) . await
            }
            CliCommand :: DoNothing => {
                self . execute_do_nothing (matches) . await
            }
            CliCommand :: OnlyErrors => {
                self . execute_only_errors (matches) . await
            }
            CliCommand :: OptJson => {
                self . execute_opt_json (matches) . await
            }
            CliCommand :: ScalarJson => {
                self . execute_scalar_json (matches) . await
            }
            CliCommand :: AnyJson => {
                self . execute_any_json (matches) . await
            }
            CliCommand :: MapJson => {
                self . execute_map_json (matches) . await
            }
            CliCommand :: RootGet => {
                self . execute_root_get (matches) . await
            }

        }

    }
    pub async fn execute_thing_get (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . thing_get () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("id") {
            request = request . id (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_thing_get (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_thing_delete (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . thing_delete () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("id") {
            request = request . id (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_thing_delete (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_no_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_thing_head (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . thing_head () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("id") {
            request = request . id (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_thing_head (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_no_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_thing_patch (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . thing_patch () ;
        if let Some (value) = matches . get_one :: < :: uuid :: Uuid > ("id") {
            request = request . id (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < i64 > ("level" ,) {
            request = request . body_map (| body | {
                body . level (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("name" ,) {
            request = request . body_map (| body | {
                body . name (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < bool > ("on" ,) {
            request = request . body_map (| body | {
                body . on (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < std :: path :: PathBuf > ("json-body") {
            let body_txt = std :: fs :: read_to_string (value) . unwrap () ;
            let body_value = serde_json :: from_str :: < types :: Patch > (& body_txt ,) . unwrap () ;
            request = request . body (body_value) ;

        }
        self . config . execute_thing_patch (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_thing_list (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . thing_list () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("filter") {
            request = request . filter (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: num :: NonZeroU32 > ("limit") {
            request = request . limit (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < types :: Kind > ("sort") {
            request = request . sort (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_thing_list (matches , & mut request) ? ;
        self . config . list_start :: < types :: ThingPage > () ;
        let mut stream = futures :: StreamExt :: take (request . stream () , matches . get_one :: < std :: num :: NonZeroU32 > ("limit") . map_or (usize :: MAX , | x | x . get () as usize)) ;
        loop {
            match futures :: TryStreamExt :: try_next (& mut stream) . await {
                Err (r) => {
                    self . config . list_end_error (& r) ;
                    return Err (anyhow :: Error :: new (r))
                }
                Ok (None) => {
                    self . config . list_end_success :: < types :: ThingPage > () ;
                    return Ok (()) ;

                }
                Ok (Some (value)) => {
                    self . config . list_item (& value) ;

                }

            }

        }

    }
    pub async fn execute_thing_create (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . thing_create () ;
        if let Some (value) = matches . get_one :: < u64 > ("id" ,) {
            request = request . body_map (| body | {
                body . id (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < types :: Kind > ("kind" ,) {
            request = request . body_map (| body | {
                body . kind (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: chrono :: DateTime <:: chrono :: offset :: Utc > > ("made" ,) {
            request = request . body_map (| body | {
                body . made (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("name" ,) {
            request = request . body_map (| body | {
                body . name (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("note" ,) {
            request = request . body_map (| body | {
                body . note (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < i32 > ("type" ,) {
            request = request . body_map (| body | {
                body . type_ (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < f64 > ("weight" ,) {
            request = request . body_map (| body | {
                body . weight (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < std :: path :: PathBuf > ("json-body") {
            let body_txt = std :: fs :: read_to_string (value) . unwrap () ;
            let body_value = serde_json :: from_str :: < types :: Thing > (& body_txt ,) . unwrap () ;
            request = request . body (body_value) ;

        }
        self . config . execute_thing_create (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_thing_put (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . thing_put () ;
        if let Some (value) = matches . get_one :: < types :: Name > ("id") {
            request = request . id (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < types :: Kind > ("kind" ,) {
            request = request . body_map (| body | {
                body . kind (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: chrono :: DateTime <:: chrono :: offset :: Utc > > ("made" ,) {
            request = request . body_map (| body | {
                body . made (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("name" ,) {
            request = request . body_map (| body | {
                body . name (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("note" ,) {
            request = request . body_map (| body | {
                body . note (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < u32 > ("part-no") {
            request = request . part_no (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("project") {
            request = request . project (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < i32 > ("type" ,) {
            request = request . body_map (| body | {
                body . type_ (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < f64 > ("weight" ,) {
            request = request . body_map (| body | {
                body . weight (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < std :: path :: PathBuf > ("json-body") {
            let body_txt = std :: fs :: read_to_string (value) . unwrap () ;
            let body_value = serde_json :: from_str :: < types :: Thing > (& body_txt ,) . unwrap () ;
            request = request . body (body_value) ;

        }
        self . config . execute_thing_put (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_proj_list (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . proj_list () ;
        if let Some (value) = matches . get_one :: < types :: Kind > ("kind") {
            request = request . kind (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: num :: NonZeroU32 > ("limit") {
            request = request . limit (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("project") {
            request = request . project (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("selector") {
            request = request . selector (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-scope") {
            request = request . x_scope (value . clone ()) ;

        }
        self . config . execute_proj_list (matches , & mut request) ? ;
        self . config . list_start :: < types :: ThingPage > () ;
        let mut stream = futures :: StreamExt :: take (request . stream () , matches . get_one :: < std :: num :: NonZeroU32 > ("limit") . map_or (usize :: MAX , | x | x . get () as usize)) ;
        loop {
            match futures :: TryStreamExt :: try_next (& mut stream) . await {
                Err (r) => {
                    self . config . list_end_error (& r) ;
                    return Err (anyhow :: Error :: new (r))
                }
                Ok (None) => {
                    self . config . list_end_success :: < types :: ThingPage > () ;
                    return Ok (()) ;

                }
                Ok (Some (value)) => {
                    self . config . list_item (& value) ;

                }

            }

        }

    }
    pub async fn execute_raw_get (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . raw_get () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("name") {
            request = request . name (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_raw_get (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                todo ! ()
            }
            Err (r) => {
                todo ! ()
            }

        }

    }
    pub async fn execute_raw_default (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . raw_default () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("q") {
            request = request . q (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_raw_default (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                todo ! ()
            }
            Err (r) => {
                todo ! ()
            }

        }

    }
    pub async fn execute_upload_octet (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . upload_octet () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("name") {
            request = request . name (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_upload_octet (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_no_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_upload_text (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . upload_text () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("mode") {
            request = request . mode (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_upload_text (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_upload_md (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . upload_md () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_upload_md (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_form_post (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . form_post () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("a" ,) {
            request = request . body_map (| body | {
                body . a (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < u32 > ("count" ,) {
            request = request . body_map (| body | {
                body . count (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < bool > ("flag" ,) {
            request = request . body_map (| body | {
                body . flag (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < types :: Kind > ("kind" ,) {
            request = request . body_map (| body | {
                body . kind (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("odd-name" ,) {
            request = request . body_map (| body | {
                body . odd_name (value . clone ())
            })
        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < std :: path :: PathBuf > ("json-body") {
            let body_txt = std :: fs :: read_to_string (value) . unwrap () ;
            let body_value = serde_json :: from_str :: < types :: Form > (& body_txt ,) . unwrap () ;
            request = request . body (body_value) ;

        }
        self . config . execute_form_post (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_channel (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . channel () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("id") {
            request = request . id (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("mode") {
            request = request . mode (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_channel (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                todo ! ()
            }
            Err (r) => {
                todo ! ()
            }

        }

    }
    pub async fn execute_channel_typed (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . channel_typed () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("id") {
            request = request . id (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_channel_typed (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                todo ! ()
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_do_nothing (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . do_nothing () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("a") {
            request = request . a (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("b") {
            request = request . b (value . clone ()) ;

        }
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_do_nothing (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_no_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_only_errors (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . only_errors () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_only_errors (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                todo ! ()
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_opt_json (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . opt_json () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_opt_json (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_scalar_json (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . scalar_json () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_scalar_json (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_any_json (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . any_json () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_any_json (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_map_json (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . map_json () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_map_json (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_item (& r) ;
                Ok (())
            }
            Err (r) => {
                self . config . error (& r) ;
                Err (anyhow :: Error :: new (r))
            }

        }

    }
    pub async fn execute_root_get (& self , matches : & :: clap :: ArgMatches) -> anyhow :: Result < () > {
        let mut request = self . client . root_get () ;
        if let Some (value) = matches . get_one :: < :: std :: string :: String > ("x-op") {
            request = request . x_op (value . clone ()) ;

        }
        self . config . execute_root_get (matches , & mut request) ? ;
        let result = request . send () . await ;
        match result {
            Ok (r) => {
                self . config . success_no_item (& r) ;
                Ok (())
            }
            Err (r) => {
                todo ! ()
            }

        }

    }

}
pub trait CliConfig {
    fn success_item < T > (& self , value : & ResponseValue < T >) where T : schemars :: JsonSchema + serde :: Serialize + std :: fmt :: Debug ;
    fn success_no_item (& self , value : & ResponseValue < () >) ;
    fn error < T > (& self , value : & Error < T >) where T : schemars :: JsonSchema + serde :: Serialize + std :: fmt :: Debug ;
    fn list_start < T > (& self) where T : schemars :: JsonSchema + serde :: Serialize + std :: fmt :: Debug ;
    fn list_item < T > (& self , value : & T) where T : schemars :: JsonSchema + serde :: Serialize + std :: fmt :: Debug ;
    fn list_end_success < T > (& self) where T : schemars :: JsonSchema + serde :: Serialize + std :: fmt :: Debug ;
    fn list_end_error < T > (& self , value : & Error < T >) where T : schemars :: JsonSchema + serde :: Serialize + std :: fmt :: Debug ;
    fn execute_thing_get (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: ThingGet ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_thing_delete (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: ThingDelete ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_thing_head (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: ThingHead ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_thing_patch (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: ThingPatch ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_thing_list (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: ThingList ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_thing_create (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: ThingCreate ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_thing_put (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: ThingPut ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_proj_list (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: ProjList ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_raw_get (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: RawGet ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_raw_default (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: RawDefault ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_upload_octet (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: UploadOctet ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_upload_text (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: UploadText ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_upload_md (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: UploadMd ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_form_post (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: FormPost ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_channel (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: Channel ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_channel_typed (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: ChannelTyped ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_do_nothing (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: DoNothing ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_only_errors (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: OnlyErrors ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_opt_json (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: OptJson ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_scalar_json (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: ScalarJson ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_any_json (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: AnyJson ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_map_json (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: MapJson ,) -> anyhow :: Result < () > {
        Ok (())
    }
    fn execute_root_get (& self , matches : & :: clap :: ArgMatches , request : & mut builder :: RootGet ,) -> anyhow :: Result < () > {
        Ok (())
    }

}
# [derive (Copy , Clone , Debug)] pub enum CliCommand {
    ThingGet , ThingDelete , ThingHead , ThingPatch , ThingList , ThingCreate , ThingPut , ProjList , RawGet , RawDefault , UploadOctet , UploadText , UploadMd , FormPost , Channel , ChannelTyped , DoNothing , OnlyErrors , OptJson , ScalarJson , AnyJson , MapJson , RootGet ,
}
impl CliCommand {
    pub fn iter () -> impl Iterator < Item = CliCommand > {
        vec ! [CliCommand :: ThingGet , CliCommand :: ThingDelete , CliCommand :: ThingHead , CliCommand :: ThingPatch , CliCommand :: ThingList , CliCommand :: ThingCreate , CliCommand :: ThingPut , CliCommand :: ProjList , CliCommand :: RawGet , CliCommand :: RawDefault , CliCommand :: UploadOctet , CliCommand :: UploadText , CliCommand :: UploadMd , CliCommand :: FormPost , CliCommand :: Channel , CliCommand :: ChannelTyped , CliCommand :: DoNothing , CliCommand :: OnlyErrors , CliCommand :: OptJson , CliCommand :: ScalarJson , CliCommand :: AnyJson , CliCommand :: MapJson , CliCommand :: RootGet ,] . into_iter ()
    }

}

