
/// the derived comparison
impl vstd::std_specs::cmp::PartialEqSpecImpl for Header {
    open spec fn obeys_eq_spec() -> bool {
        true
    }

    open spec fn eq_spec(&self, o: &Header) -> bool {
        self.0 == o.0
    }
}

/// the length encoded in a header byte
pub open spec fn hlen(h: Header) -> nat {
    (h.0 & 0x7f) as nat
}

/// the header says "id"
pub open spec fn hid(h: Header) -> bool {
    h.0 & 0x80 != 0
}

pub open spec fn hnone(h: Header) -> bool {
    h.0 == 0x80
}

/// the header for data of a given length
pub open spec fn hdata(len: nat) -> Header {
    Header(if len <= 0x7f { len as u8 } else { 0x7f })
}

pub open spec fn hidh(len: nat) -> Header {
    Header((len as u8) | 0x80)
}

pub broadcast proof fn lemma_hdata(len: nat)
    ensures
        !hid(#[trigger] hdata(len)),
        hlen(hdata(len)) == (if len <= 0x7f { len } else { 0x7f }),
{
    let b: u8 = if len <= 0x7f { len as u8 } else { 0x7f };
    assert(b <= 0x7f ==> b & 0x80 == 0 && b & 0x7f == b) by (bit_vector);
}

pub broadcast proof fn lemma_hidh(len: nat)
    requires
        len < 0x80,
    ensures
        hid(#[trigger] hidh(len)),
        hlen(hidh(len)) == len,
        hnone(hidh(len)) <==> len == 0,
{
    let b: u8 = len as u8;
    assert(b <= 0x7f ==> (b | 0x80) & 0x80 != 0 && (b | 0x80) & 0x7f == b && ((b | 0x80) == 0x80 <==> b == 0)) by (bit_vector);
}

pub broadcast proof fn lemma_header(h: Header)
    ensures
        #![trigger hlen(h)]
        #![trigger hid(h)]
        hlen(h) <= 0x7f,
        hnone(h) <==> hid(h) && hlen(h) == 0,
        hid(h) ==> h == hidh(hlen(h)),
        !hid(h) ==> h == hdata(hlen(h)),
{
    let b = h.0;
    assert(b & 0x7f <= 0x7f) by (bit_vector);
    assert(b == 0x80 <==> (b & 0x80 != 0 && b & 0x7f == 0)) by (bit_vector);
    assert(b & 0x80 != 0 ==> b == (b & 0x7f) | 0x80) by (bit_vector);
    assert(b & 0x80 == 0 ==> b == b & 0x7f) by (bit_vector);
}

pub broadcast group group_header {
    lemma_hdata,
    lemma_hidh,
    lemma_header,
}


} // mod hd
use hd::*;
broadcast use group_header;

