//! Stand-in for `biome_unicode_table`: the byte classes of a lexer.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Dispatch {
    ERR, WHS, EXL, QOT, IDT, HAS, PRC, AMP, PNO, PNC, MUL, PLS, COM, MIN, PRD, SLH, ZER, DIG, COL, SEM, LSS,
    EQL, MOR, QST, AT_, BTO, BSL, BTC, CRT, TPL, BEO, PIP, BEC, TLD, UNI,
}
use Dispatch::*;
pub fn lookup_byte(byte: u8) -> Dispatch {
    match byte {
        9..=13 | b' ' => WHS,
        b'!' => EXL,
        b'"' | b'\'' => QOT,
        b'#' => HAS,
        b'$' | b'_' | b'a'..=b'z' | b'A'..=b'Z' => IDT,
        b'%' => PRC,
        b'&' => AMP,
        b'(' => PNO,
        b')' => PNC,
        b'*' => MUL,
        b'+' => PLS,
        b',' => COM,
        b'-' => MIN,
        b'.' => PRD,
        b'/' => SLH,
        b'0' => ZER,
        b'1'..=b'9' => DIG,
        b':' => COL,
        b';' => SEM,
        b'<' => LSS,
        b'=' => EQL,
        b'>' => MOR,
        b'?' => QST,
        b'@' => AT_,
        b'[' => BTO,
        b'\\' => BSL,
        b']' => BTC,
        b'^' => CRT,
        b'`' => TPL,
        b'{' => BEO,
        b'|' => PIP,
        b'}' => BEC,
        b'~' => TLD,
        128.. => UNI,
        _ => ERR,
    }
}
