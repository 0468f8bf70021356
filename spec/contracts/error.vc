## error.rs
@impl From<nom::Err<nom::error::Error<&str>>> for Error spec
open spec fn obeys_from_spec() -> bool { true }
open spec fn from_spec(e: crate::shim::nom::Err<crate::shim::nom::error::Error<&str>>) -> Self {
    Error::Parsing(match e {
        crate::shim::nom::Err::Incomplete(_) => crate::shim::nom::error::ErrorKind::Complete,
        crate::shim::nom::Err::Failure(x) => x.code,
        crate::shim::nom::Err::Error(x) => x.code,
    })
}
@impl From<Response> for Error spec
open spec fn obeys_from_spec() -> bool { true }
open spec fn from_spec(e: Response) -> Self { resp_error(e) }
@impl From<&'staticstr> for Error spec
open spec fn obeys_from_spec() -> bool { true }
open spec fn from_spec(e: &'static str) -> Self { Error::Client(e) }
@fn error::Error::From<nom::Err<nom::error::Error<&str>>>::from
ensures ret is Parsing, // [C04] a text that is not a reply is a parsing error
@fn error::Error::From<Response>::from
@params response
ensures ret == resp_error($response), // [C05] the error carries the reply and its kind follows the code
@fn error::Error::From<&'staticstr>::from
ensures ret is Client,
@end
