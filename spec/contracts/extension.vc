## extension.rs
@impl Display for ClientId
open spec fn text(&self) -> Seq<char> { client_text(*self) } // [C17]
@impl Display for Extension
open spec fn text(&self) -> Seq<char> {
    match *self {
        Extension::Pipelining => "PIPELINING"@, Extension::EightBitMime => "8BITMIME"@, Extension::SmtpUtfEight => "SMTPUTF8"@,
        Extension::StartTls => "STARTTLS"@, Extension::Authentication(m) => "AUTH "@ + mech_name(m),
    }
}
@impl Display for MailParameter
open spec fn text(&self) -> Seq<char> { mailp(*self) } // [C02] [C15] [C16]
@impl Display for MailBodyParameter
open spec fn text(&self) -> Seq<char> { match *self { MailBodyParameter::SevenBit => "7BIT"@, MailBodyParameter::EightBitMime => "8BITMIME"@ } } // [C02] [C16]
@impl Display for RcptParameter
open spec fn text(&self) -> Seq<char> { match *self { RcptParameter::Other { keyword, value } => other_text(keyword, value) } } // [C02] [C15]
@impl Display for ServerInfo
open spec fn text(&self) -> Seq<char> { self.name@ + " with "@ + (if self.features@ =~= Set::empty() { "no supported features"@ } else { crate::shim::dbg(&self.features) }) }
@fn extension::ServerInfo::from_response
@params r
ensures
    first_word(texts($r.message@)) is None ==> ret is Err && ret->Err_0 is ResponseParsing, // [C11] a reply without a name is an error
    first_word(texts($r.message@)) is Some ==> ret is Ok && (ret->Ok_0).name@ == first_word(texts($r.message@))->0, // [C11] the name
    ret is Ok ==> (ret->Ok_0).features@ == caps(texts($r.message@)), // [C11] exactly the advertised extensions
@locals features
@hint start
let ghost ls = texts($r.message@);
proof { lem_caps_step(ls, 0); }
@loop 0 for
    ls.len() == $r.message@.len(),
    ls == texts($r.message@),
    ls.len() >= 1,
[iter]    __all0.len() == ls.len() - 1,
[iter]    forall|k: int| 0 <= k < __all0.len() ==> (#[trigger] __all0[k])@ == ls[k + 1],
    $features@ =~= caps(ls.take(__k0 + 1)),
@hint loop 0 start
let ghost l0 = ls[__k0];
let ghost f0 = $features@;
proof { lem_caps_step(ls, __k0); lem_no_words(l0); lem_mech_step(words(l0).skip(1), 0); }
@loop 1 for
[iter]    __all1.len() == words(l0).skip(1).len(),
[iter]    forall|k: int| 0 <= k < __all1.len() ==> (#[trigger] __all1[k])@ == words(l0).skip(1)[k],
    $features@ =~= f0.union(mech_caps(words(l0).skip(1).take(__k1))),
@hint loop 1 start
proof { lem_mech_step(words(l0).skip(1), __k1 - 1); }
@hint loop 0 after
proof { lem_caps_step(ls, 0); }
@fn extension::ServerInfo::supports_feature
@params e
ensures ret == self.features@.contains($e), // [C11] [C10] [C16]
@fn extension::ServerInfo::supports_auth_mechanism
@params m
ensures ret == self.features@.contains(Extension::Authentication($m)), // [C11] [C18]
@end
@fn extension::ClientId::new
@params d
ensures ret == ClientId::Domain($d), // [C17]
@fn extension::ClientId::Default::default
ensures ret is Ipv4, // [C17]
@end
