## Items that are not extracted.

@mod types
impl crate::shim::Source for Message {
    open spec fn data(&self) -> Seq<u8> { match *self { Message::Reader(d) => (*d).rdata(), Message::Bytes(c) => c.bytes() } }
    open spec fn fails(&self) -> bool { match *self { Message::Reader(d) => (*d).rfails(), Message::Bytes(c) => false } }
}
@pure is_ascii_control crate::shim::s_is_ascii_control($0.cc())
@pure is_ascii_whitespace crate::shim::s_is_ascii_whitespace($0.cc())
@pure is_ascii_graphic crate::shim::s_is_ascii_graphic($0.cc())
@pure is_ascii_digit crate::shim::s_is_ascii_digit($0.cc())
@pure is_ascii_uppercase crate::shim::s_is_ascii_uppercase($0.cc())
@pure is_ascii_lowercase crate::shim::s_is_ascii_lowercase($0.cc())
@pure is_ascii_alphabetic crate::shim::s_is_ascii_alphabetic($0.cc())
@pure is_ascii_alphanumeric crate::shim::s_is_ascii_alphanumeric($0.cc())
@pure is_ascii_punctuation crate::shim::s_is_ascii_punctuation($0.cc())
@pure is_control crate::shim::s_is_control($0.cc())
@pure is_whitespace crate::shim::s_is_whitespace($0.cc())
@pure is_ascii crate::shim::s_is_ascii($0.cc())
@pure v_is_ascii crate::shim::s_is_ascii($0.cc())
@pure len_utf8 crate::shim::s_len_utf8($0.cc())
