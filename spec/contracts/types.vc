@fields SendableEmail envelope message
@fields Envelope forward_path reverse_path
@fields EmailAddress 0
## types.rs
@private EmailAddress Envelope
@impl EmailAddress
#[verifier::type_invariant]
pub closed spec fn valid(&self) -> bool { addr_ok(self.0@) } // [C03] every address that exists is safe
pub closed spec fn a(&self) -> Seq<char> { self.0@ }
pub proof fn safe(tracked &self) ensures addr_ok(self.a()) // [C03]
{ use_type_invariant(self); }
@impl Display for EmailAddress
open spec fn text(&self) -> Seq<char> { self.a() } // [C03]
@impl AsRef<str> for EmailAddress
open spec fn as_ref_ok(&self, r: &str) -> bool { r@ == self.a() } // [C03]
@impl AsRef<OsStr> for EmailAddress
open spec fn as_ref_ok(&self, r: &OsStr) -> bool { true }
@fn types::EmailAddress::new
@params address
ensures
    ret is Ok <==> addr_ok($address@), // [C03] exactly the safe texts are accepted
    ret is Ok ==> (ret->Ok_0).a() == $address@, // [C03]
@hint start
proof { lem_utf8_bytes($address@); }
@loop? 0
[iter] forall|j: int| 0 <= j < __k0 ==> AddrPiece::piece_ok(#[trigger] __all0[j]),
@fn types::EmailAddress::FromStr::from_str
@params s
ensures
    ret is Ok <==> addr_ok($s@), // [C03] parsing accepts what the constructor accepts
    ret is Ok ==> (ret->Ok_0).a() == $s@, // [C03]
@impl Envelope
#[verifier::type_invariant]
pub closed spec fn valid(&self) -> bool { self.forward_path@.len() > 0 } // [C03] every envelope has a recipient
pub closed spec fn rcpts(&self) -> Seq<EmailAddress> { self.forward_path@ }
pub closed spec fn sender(&self) -> Option<EmailAddress> { self.reverse_path }
pub proof fn some(tracked &self) ensures self.rcpts().len() > 0 // [C03]
{ use_type_invariant(self); }
@fn types::Envelope::new
@params from to
ensures
    ret is Ok <==> $to@.len() > 0, // [C03]
    ret is Ok ==> (ret->Ok_0).rcpts() == $to@ && (ret->Ok_0).sender() == $from, // [C03]
@fn types::Envelope::to
ensures ret@ == self.rcpts(), // [C03]
@fn types::Envelope::from
ensures ret == (match self.sender() { Some(a) => Some(&a), None => None }), // [C03]
@fn types::Message::Read::poll_read
ensures
    ret is Pending ==> final(self).data() == old(self).data(), // [C01] [C13] nothing is lost while waiting
    ret matches Poll::Ready(Err(_)) ==> old(self).fails(), // [C13]
@fn types::SendableEmail::new
@params e m
ensures
    ret.envelope == $e, // [C03]
    ret.message is Bytes, // [C01]
    <__D0 as vstd::std_specs::convert::IntoSpec<Vec<u8>>>::obeys_into_spec() ==> ret.message.data() == vstd::std_specs::convert::IntoSpec::<Vec<u8>>::into_spec($m)@, // [C01] the message is the given bytes
@fn types::SendableEmail::new_with_reader
@params e m
ensures ret.envelope == $e, ret.message == Message::Reader($m), // [C01]
@fn types::SendableEmail::envelope
ensures *ret == self.envelope, // [C03]
@fn types::SendableEmail::message
ensures ret == self.message, // [C01]
@end
