import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PARSE = __import__('importlib').import_module('seeds_b').PARSE
SEEDS = [
 dict(id='bundle-field-limit', property='C01', needs='a bundle of more than 255 fields',
      breaks='bundles of more than 255 fields are written but no longer read',
      edits=[('src/types/parsers.rs', 'separated_list0(spaced(op(",")), spaced(field)), spaced(op("}"))', 'map_opt(separated_list0(spaced(op(",")), spaced(field)), |v| if v.len() < 256 { Some(v) } else { None }), spaced(op("}"))'),
             ('src/types/parsers.rs', 'pub fn r#type(input: &str) -> IResult<super::Type> {\n', 'pub fn r#type(input: &str) -> IResult<super::Type> {\n    use nom::combinator::map_opt;\n')],
      main=PARSE + '''
fn main() {
    let f: Vec<String> = (0..300).map(|i| format!("f{}: Clock", i)).collect();
    module(&format!("circuit m:\\n  module m:\\n    input a: {{{}}}\\n", f.join(", ")));
}
'''),
 dict(id='negative-zero', property='C05', needs='a floating point parameter which is a whole number beyond the range of integers',
      breaks='such a parameter is printed as another value',
      edits=[('src/module.rs', '            Self::Double(v) if v.fract() == 0.0', '            Self::Double(v) if v.abs() > 1e18 => write!(f, "{:.1}", *v as i64),\n            Self::Double(v) if v.fract() == 0.0')],
      main=PARSE + '''
fn main() {
    again("circuit m:\\n  extmodule m:\\n    parameter a = 1.0E30\\n");
}
'''),
 dict(id='info-slice', property='C13', needs='a long info attribute with a letter outside ASCII at the cut',
      breaks='long infos are cut in the middle of characters when an error is described',
      edits=[('src/info.rs', '            write!(f, " @[")?;\n', '            let s = if s.len() > 65536 { &s[..65536] } else { s };\n            write!(f, " @[")?;\n')],
      main=PARSE + '''
fn main() {
    for pad in ["", "a", "aa"] {
        let m = circuit::parse(&format!("circuit m: @[{}{}]\\n  module m:\\n", pad, "€".repeat(40000))).expect("parse");
        assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.to_string())).is_ok());
    }
}
'''),
 dict(id='tab-loop', property='C14', needs='a module which is indented with a tab after a blank',
      breaks='looking for the start of the next module never ends',
      edits=[('src/module/parsers.rs', '        if !self.current.is_empty() {\n', '        while self.current.starts_with(" \\t") {\n            self.current = self.current.trim_end_matches(\'\\t\');\n        }\n        if !self.current.is_empty() {\n')],
      main=PARSE + '''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(circuit::parse("circuit m:\\n  module m:\\n    skip\\n \\tmodule n:\\n").is_err()); });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());
}
'''),
 dict(id='entity-ignores-case', property='C16', needs='a reference which differs from a declared name in case only',
      breaks='a name which was never declared denotes another entity',
      edits=[('src/stmt/context.rs', '        self.entities.get(name).cloned()\n    }', '        self.entities\n            .get(name)\n            .or_else(|| self.entities.values().find(|e| e.name().eq_ignore_ascii_case(name)))\n            .cloned()\n    }')],
      main=PARSE + '''
fn main() {
    assert!(circuit::parse("circuit m:\\n  module m:\\n    input a: UInt<1>\\n    node b = A\\n").is_err());
}
'''),
 dict(id='param-eps', property='C24', needs='two external modules whose parameters differ very little',
      breaks='floating point parameters are equal if they are close',
      edits=[('src/module.rs', '#[derive(Clone, PartialEq, Debug)]\npub enum ParamValue {Int(i64), Double(f64), String(Arc<str>)}', '''#[derive(Clone, Debug)]
pub enum ParamValue {Int(i64), Double(f64), String(Arc<str>)}

impl PartialEq for ParamValue {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Int(l),    Self::Int(r))    => l == r,
            (Self::Double(l), Self::Double(r)) => (l - r).abs() <= f64::EPSILON,
            (Self::String(l), Self::String(r)) => l == r,
            _ => false,
        }
    }
}''')],
      main=PARSE + '''
fn main() {
    let t = |v: &str| module(&format!("circuit m:\\n  extmodule m:\\n    parameter a = {}\\n", v));
    assert_ne!(t("1.0E-20"), t("2.0E-20"));
}
'''),
 dict(id='hex-digits-upper', property='C26', needs='a hexadecimal literal with leading zeros and no width',
      breaks='such a literal is read as octal',
      edits=[('src/expr/parsers.rs', '|(_, radix, value, _)| num_traits::Num::from_str_radix(value, radix)', "|(_, radix, value, _): (_, u32, &str, _)| num_traits::Num::from_str_radix(value, if radix == 16 && value.starts_with('0') && value.len() > 3 { 8 } else { radix })")],
      main=PARSE + '''
fn main() {
    again("circuit m:\\n  module m:\\n    node b = UInt(\\"h0010\\")\\n");
    assert_eq!(module("circuit m:\\n  module m:\\n    node b = UInt(\\"h0010\\")\\n"), module("circuit m:\\n  module m:\\n    node b = UInt(16)\\n"));
}
'''),
 dict(id='unknown-lines-skipped', property='C15', needs='a line of a block which is not a statement but a verification directive',
      breaks='lines with verification statements are dropped silently',
      edits=[('src/stmt/parsers.rs', '''        res.push(stmt);
        input = i;
    }
''', '''        res.push(stmt);
        input = i;
        while let Ok((i, _)) = tuple((
            indentation.clone().parser(),
            tag("cover("),
            nom::character::complete::not_line_ending,
            le,
        ))(input) {
            input = i;
        }
    }
''')],
      main=PARSE + '''
fn main() {
    assert!(circuit::parse("circuit m:\\n  module m:\\n    skip\\n    cover(a, b, c)\\n    skip\\n").is_err());
}
'''),
 dict(id='references-dedup', property='C17', needs='an expression which refers to the same entity twice, not in adjacent operands',
      breaks='an operand is visited once although it occurs twice',
      edits=[('src/expr.rs', 'Expression::Mux{sel, a, b}            => vec![sel.as_ref(), a.as_ref(), b.as_ref()],', 'Expression::Mux{sel, a, b} if std::ptr::eq(a.as_ref(), b.as_ref()) => vec![sel.as_ref(), a.as_ref()],\n            Expression::Mux{sel, a, b}            => vec![sel.as_ref(), a.as_ref(), b.as_ref()],')],
      main=PARSE + '''
use firrtl_ast::{expr::Expression, stmt::Entity};
fn main() {
    let e = Arc::new(Entity::Wire{name: "w".into(), r#type: firrtl_ast::types::GroundType::Clock.into()});
    let r = Arc::new(Expression::Reference(e));
    assert_eq!(Expression::Mux{sel: r.clone(), a: r.clone(), b: r}.references().count(), 3);
}
'''),
 dict(id='port-shadow-dir', property='C10', needs='a field of a flipped field of an output port',
      breaks='the flow of nested flips is wrong',
      edits=[('src/expr.rs', '(Self::Sink,   O::Flipped) => Self::Source,', '(Self::Sink,   O::Flipped) => Self::Duplex,')],
      main=PARSE + '''
use firrtl_ast::expr::Flow;
fn main() {
    assert_eq!(Flow::Sink + firrtl_ast::types::Orientation::Flipped, Flow::Source);
}
'''),
]
