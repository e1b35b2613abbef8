//! stand-in for wolfram_wxf 0.4.1, as far as sm_ast and its tests use it
use num::BigInt;

#[derive(Clone, Debug, PartialEq)]
pub enum WolframValue {
    Skip,
    Function(Box<WolframValue>, Vec<WolframValue>),
    BigInteger(BigInt),
    BigDecimal(Box<str>),
    Symbol(Box<str>),
    String(Box<str>),
}
pub trait ToWolfram {
    fn to_wolfram(&self) -> WolframValue;
    fn to_wolfram_string(&self) -> String {
        text(&self.to_wolfram())
    }
    fn to_wolfram_bytes(&self) -> Vec<u8> {
        self.to_wolfram_string().into_bytes()
    }
}
impl ToWolfram for WolframValue {
    fn to_wolfram(&self) -> WolframValue {
        self.clone()
    }
}
impl WolframValue {
    pub fn symbol(s: impl Into<String>) -> WolframValue {
        WolframValue::Symbol(s.into().into_boxed_str())
    }
    pub fn function<T: ToWolfram>(head: &str, args: Vec<T>) -> WolframValue {
        WolframValue::Function(Box::new(WolframValue::symbol(head)), args.iter().map(|a| a.to_wolfram()).collect())
    }
}
fn text(v: &WolframValue) -> String {
    match v {
        WolframValue::Skip => String::new(),
        WolframValue::Function(h, a) => {
            let a = a.iter().map(text).collect::<Vec<_>>().join(",");
            match &**h {
                WolframValue::Symbol(s) if &**s == "List" => format!("{{{}}}", a),
                h => format!("{}[{}]", text(h), a),
            }
        }
        WolframValue::BigInteger(i) => i.to_string(),
        WolframValue::BigDecimal(d) => d.to_string(),
        WolframValue::Symbol(s) => s.to_string(),
        WolframValue::String(s) => format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")),
    }
}
