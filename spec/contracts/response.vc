## response.rs
@fn response::parse_severity
@params i
ensures nom_ok($i@, p_sev($i@), ret), // [C04]
@fn response::parse_category
@params i
ensures nom_ok($i@, p_cat($i@), ret), // [C04]
@fn response::parse_detail
@params i
ensures nom_ok($i@, p_det($i@), ret), // [C04]
@fn response::parse_code
@params i
ensures nom_ok($i@, p_code($i@), ret), // [C04]

@fn response::parse_response
@params i
ensures
    p_resp($i@) is More ==> ret is Err && ret->Err_0 is Incomplete, // [C04]
    p_resp($i@) is No ==> ret is Err && !(ret->Err_0 is Incomplete), // [C04]
    p_resp($i@) matches Pr::Got(r, n) ==> ret is Ok && says((ret->Ok_0).1, r) && (ret->Ok_0).0@ == $i@.skip(n), // [C04]
@hint start
broadcast use crate::spec::accv_at;
let ghost i0 = $i@;
proof { lem_in_lines_init(i0); assert("\r\n"@ =~= crlf()); assert(""@ =~= Seq::<char>::empty()); }
@loop 0 while
invariant
    in_lines(i0, __many_i@, accv(__many_acc@)),
    __many_go ==> __many_end is None,
    !__many_go && __many_end is None ==> p_cont(__many_i@) is No,
    __many_end is Some ==> __many_end->0 is Incomplete && p_resp(i0) is More,
decreases __many_i@.len(), (if __many_go { 1int } else { 0int })
@hint loop 0 before
proof { assert(accv(__many_acc@) =~= Seq::empty()); }
@hint loop 0 after
proof { lem_in_lines_step(i0, __many_i@, accv(__many_acc@)); lem_text(__many_i@); }
@hint loop 0 start
let ghost acc0 = __many_acc@;
proof { lem_in_lines_step(i0, __many_i@, accv(__many_acc@)); lem_text(__many_i@); }
@hint loop 0 end
proof { if __many_acc@.len() > acc0.len() { assert(accv(__many_acc@) =~= accv(acc0).push((__many_acc@.last().0, __many_acc@.last().1@))); } }
@end
@impl Display for Severity
open spec fn text(&self) -> Seq<char> { seq![sev_char(*self)] } // [C04]
@impl Display for Category
open spec fn text(&self) -> Seq<char> { seq![cat_char(*self)] } // [C04]
@impl Display for Detail
open spec fn text(&self) -> Seq<char> { seq![det_char(*self)] } // [C04]
@impl Display for Code
open spec fn text(&self) -> Seq<char> { code_text(*self) } // [C04]
@fn response::Code::new
@params s c d
ensures ret == (Code { severity: $s, category: $c, detail: $d }), // [C04]
@fn response::Response::new
@params c m
ensures ret == (Response { code: $c, message: $m }), // [C04]
@fn response::Response::FromStr::from_str
@params s
ensures
    p_resp($s@) matches Pr::Got(r, n) ==> ret is Ok && says(ret->Ok_0, r), // [C04]
    !(p_resp($s@) is Got) ==> ret is Err && ret->Err_0 is Parsing, // [C04]
@fn response::Response::is_positive
ensures ret == positive(self.code), // [C05]
@fn response::Response::has_code
@params code
ensures ret == (code_text(self.code) == dec($code as int)), // [C09]
@hint start
proof { lem_code_num(self.code, $code as int); }
@fn response::Response::first_word
ensures
    first_word(texts(self.message@)) is None ==> ret is None, // [C11]
    first_word(texts(self.message@)) is Some ==> ret is Some && ret->0@ == first_word(texts(self.message@))->0, // [C11]
@fn response::Response::first_line
ensures
    self.message@.len() == 0 ==> ret is None,
    self.message@.len() > 0 ==> ret is Some && ret->0@ == self.message@[0]@,
@end
