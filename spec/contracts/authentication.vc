@fields Credentials authentication_identity secret
## authentication.rs
@impl Display for Mechanism
open spec fn text(&self) -> Seq<char> { mech_name(*self) } // [C09] [C11]
@fn authentication::Credentials::new
@params u p
ensures ret.authentication_identity@ == $u@, ret.secret@ == $p@, // [C09]
@fn authentication::Credentials::IntoCredentials::into_credentials
ensures ret == self, // [C09]
@fn authentication::tuple::IntoCredentials::into_credentials
ensures
    <S as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec() ==> ret.authentication_identity@ == vstd::std_specs::convert::IntoSpec::<String>::into_spec(self.0)@, // [C09] the first is the user name
    <T as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec() ==> ret.secret@ == vstd::std_specs::convert::IntoSpec::<String>::into_spec(self.1)@, // [C09] the second is the password
@fn authentication::Mechanism::supports_initial_response
ensures ret == initial(self), // [C09]
@fn authentication::Mechanism::response
@params c ch
ensures
    sasl(self, $c.authentication_identity@, $c.secret@, opt_s($ch)) is Some ==> ret is Ok && ret->Ok_0@ =~= sasl(self, $c.authentication_identity@, $c.secret@, opt_s($ch))->0, // [C09] what the mechanism prescribes
    sasl(self, $c.authentication_identity@, $c.secret@, opt_s($ch)) is None ==> ret is Err && ret->Err_0 is Client, // [C09] nothing is revealed
@end
