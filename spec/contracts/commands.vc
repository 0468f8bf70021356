@fields AuthCommand mechanism credentials challenge response
@fields ExpnCommand argument
@fields VrfyCommand argument
@fields HelpCommand argument
@fields RcptCommand recipient parameters
@fields MailCommand sender parameters
@fields EhloCommand client_id
## commands.rs
## The text of every command (for all arguments), and that it is one line.
@impl Display for EhloCommand
open spec fn text(&self) -> Seq<char> { "EHLO "@ + client_text(self.client_id) + "\r\n"@ } // [C02] [C17]
@impl Display for StarttlsCommand
open spec fn text(&self) -> Seq<char> { "STARTTLS\r\n"@ } // [C02] [C10]
@impl Display for MailCommand
open spec fn text(&self) -> Seq<char> { mail_text(self.sender, self.parameters@) } // [C02] [C16]
@impl Display for RcptCommand
open spec fn text(&self) -> Seq<char> { rcpt_text(self.recipient, self.parameters@) } // [C02] [C16]
@impl Display for DataCommand
open spec fn text(&self) -> Seq<char> { "DATA\r\n"@ } // [C02]
@impl Display for QuitCommand
open spec fn text(&self) -> Seq<char> { "QUIT\r\n"@ } // [C02]
@impl Display for NoopCommand
open spec fn text(&self) -> Seq<char> { "NOOP\r\n"@ } // [C02]
@impl Display for RsetCommand
open spec fn text(&self) -> Seq<char> { "RSET\r\n"@ } // [C02]
@impl Display for HelpCommand
open spec fn text(&self) -> Seq<char> { "HELP"@ + (match self.argument { Some(a) => " "@ + a@, None => Seq::empty() }) + "\r\n"@ } // [C02]
@impl Display for VrfyCommand
open spec fn text(&self) -> Seq<char> { "VRFY "@ + self.argument@ + "\r\n"@ } // [C02]
@impl Display for ExpnCommand
open spec fn text(&self) -> Seq<char> { "EXPN "@ + self.argument@ + "\r\n"@ } // [C02]
@impl Display for AuthCommand
open spec fn text(&self) -> Seq<char> { auth_text(self.mechanism, opt_string(self.response)) } // [C02] [C09]

@fn commands::EhloCommand::Display::fmt
ensures clean(client_text(self.client_id)) ==> one_line(self.text()), // [C02] one line
@hint start
proof { lem_ehlo_line(self.client_id); }
@fn commands::EhloCommand::new
@params c
ensures ret.text() == "EHLO "@ + client_text($c) + "\r\n"@, // [C02] [C17]
@fn commands::StarttlsCommand::Display::fmt
ensures one_line(self.text()), // [C02] one line
@hint start
proof { assert(self.text().skip(8) =~= crlf()); }
@fn commands::DataCommand::Display::fmt
ensures one_line(self.text()), // [C02] one line
@hint start
proof { assert(self.text().skip(4) =~= crlf()); }
@fn commands::QuitCommand::Display::fmt
ensures one_line(self.text()), // [C02] one line
@hint start
proof { assert(self.text().skip(4) =~= crlf()); }
@fn commands::NoopCommand::Display::fmt
ensures one_line(self.text()), // [C02] one line
@hint start
proof { assert(self.text().skip(4) =~= crlf()); }
@fn commands::RsetCommand::Display::fmt
ensures one_line(self.text()), // [C02] one line
@hint start
proof { assert(self.text().skip(4) =~= crlf()); }
@fn commands::HelpCommand::Display::fmt
ensures (self.argument is Some ==> clean(self.argument->0@)) ==> one_line(self.text()), // [C02] one line
@hint start
proof {
    lem_line("HELP"@);
    assert("HELP"@ + Seq::<char>::empty() =~= "HELP"@);
    if self.argument is Some { lem_clean_cat(" "@, self.argument->0@); lem_arg_line("HELP"@, " "@ + self.argument->0@); }
}
@fn commands::VrfyCommand::Display::fmt
ensures clean(self.argument@) ==> one_line(self.text()), // [C02] one line
@hint start
proof { lem_arg_line("VRFY "@, self.argument@); }
@fn commands::ExpnCommand::Display::fmt
ensures clean(self.argument@) ==> one_line(self.text()), // [C02] one line
@hint start
proof { lem_arg_line("EXPN "@, self.argument@); }
@fn commands::HelpCommand::new
@params a
ensures ret.argument == $a, // [C02]
@fn commands::VrfyCommand::new
@params a
ensures ret.argument == $a, // [C02]
@fn commands::ExpnCommand::new
@params a
ensures ret.argument == $a, // [C02]

@fn commands::MailCommand::new
@params s p
ensures ret.text() == mail_text($s, $p@), // [C02] [C16]
@fn commands::MailCommand::Display::fmt
@params f
ensures (forall|k: int| 0 <= k < self.parameters@.len() ==> mailp_ok(#[trigger] self.parameters@[k])) ==> one_line(self.text()), // [C02] one line
@hint start
let ghost h = "MAIL FROM:<"@ + sender_text(self.sender) + ">"@;
proof {
    if let Some(a) = &self.sender { a.safe(); }
    lem_mail_line(self.sender, self.parameters@);
    lem_ptext(self.parameters@, 0);
}
@loop 0 for
[iter]    __all0.len() == self.parameters@.len(),
[iter]    forall|k: int| 0 <= k < __all0.len() ==> *(#[trigger] __all0[k]) == self.parameters@[k],
    $f.fails() == old($f).fails(),
    $f.out() =~= old($f).out() + (h + ptext(self.parameters@.take(__k0))),
@hint loop 0 start
proof { lem_ptext(self.parameters@, __k0 - 1); }
@hint loop 0 after
proof { assert(self.parameters@.take(self.parameters@.len() as int) =~= self.parameters@); }

@fn commands::RcptCommand::new
@params r p
ensures ret.text() == rcpt_text($r, $p@), // [C02] [C16]
@fn commands::RcptCommand::Display::fmt
@params f
ensures (forall|k: int| 0 <= k < self.parameters@.len() ==> rcptp_ok(#[trigger] self.parameters@[k])) ==> one_line(self.text()), // [C02] one line
@hint start
let ghost h = "RCPT TO:<"@ + self.recipient.a() + ">"@;
proof {
    self.recipient.safe();
    lem_rcpt_line(self.recipient, self.parameters@);
    lem_ptext(self.parameters@, 0);
}
@loop 0 for
[iter]    __all0.len() == self.parameters@.len(),
[iter]    forall|k: int| 0 <= k < __all0.len() ==> *(#[trigger] __all0[k]) == self.parameters@[k],
    $f.fails() == old($f).fails(),
    $f.out() =~= old($f).out() + (h + ptext(self.parameters@.take(__k0))),
@hint loop 0 start
proof { lem_ptext(self.parameters@, __k0 - 1); }
@hint loop 0 after
proof { assert(self.parameters@.take(self.parameters@.len() as int) =~= self.parameters@); }

@fn commands::AuthCommand::Display::fmt
ensures one_line(self.text()), // [C02] one line whatever the credentials
@hint start
proof { lem_auth_line(self.mechanism, opt_string(self.response)); }
@fn commands::AuthCommand::new
@params m c ch
ensures
    ({
        let s = sasl($m, $c.authentication_identity@, $c.secret@, opt_string($ch));
        let need = initial($m) || $ch is Some;
        &&& (need && s is None ==> ret is Err && ret->Err_0 is Client)
        &&& (need && s is Some ==> ret is Ok && (ret->Ok_0).text() == auth_text($m, s))
        &&& (!need ==> ret is Ok && (ret->Ok_0).text() == auth_text($m, None))
    }), // [C09] what is sent for the mechanism and the challenge
@fn commands::AuthCommand::new_from_response
@params m c r
ensures
    ({
        let ch = challenge(rv(*$r));
        let s = sasl($m, $c.authentication_identity@, $c.secret@, ch);
        &&& (ch is Some && s is Some ==> ret is Ok && (ret->Ok_0).text() == auth_text($m, s))
        &&& (ch is None || s is None ==> ret is Err && !(ret->Err_0 is Transient) && !(ret->Err_0 is Permanent))
    }), // [C09] a challenge is answered only if it is one the mechanism knows
@end
