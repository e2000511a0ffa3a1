import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PARSE = __import__('importlib').import_module('seeds_b').PARSE
SINK = '''
use std::fmt::Write;
struct Full(usize, usize);
impl Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1 += 1;
        if self.0 < s.len() { self.0 = 0; return Err(std::fmt::Error) }
        self.0 -= s.len();
        Ok(())
    }
}
'''
CIRC = 'circuit m:\\n  module m:\\n'
SEEDS = [
 dict(id='error-truncated', property='C13', needs='a parse error whose description is long and has a multi-byte character at the cut',
      breaks='long descriptions of errors are cut in the middle of characters',
      edits=[('src/error.rs', 'nom::Err::Error(e) | nom::Err::Failure(e) => convert_error(input, e).into(),',
              'nom::Err::Error(e) | nom::Err::Failure(e) => {\n            let mut text = convert_error(input, e);\n            text.truncate(2048);\n            text.into()\n        },')],
      main=PARSE + '''
fn main() {
    for pad in ["", "a", "aa", "aaa"] {
        let t = format!("circuit m:\\n  module m: {}{}\\n", pad, "€".repeat(3000));
        let r = std::panic::catch_unwind(|| circuit::parse(&t).is_err());
        assert_eq!(r.ok(), Some(true));
    }
}
'''),
 dict(id='printf-rejects-control', property='C07', needs='a format string with a delete character',
      breaks='a format string with a control character is read but cannot be printed',
      edits=[('src/stmt/display.rs', '''                    '\\'' => write!(f, "\\\\'"),
                    c    => fmt''', '''                    '\\'' => write!(f, "\\\\'"),
                    '\\u{7f}'..='\\u{9f}' => Err(fmt::Error),
                    c    => fmt''')],
      main=PARSE + SINK + '''
fn main() {
    let c = circuit::parse("circuit m:\\n  module m:\\n    input c: Clock\\n    input e: UInt<1>\\n    printf(c, e, \\"a\\u{85}b\\")\\n").expect("parse");
    let mut s = String::new();
    assert!(write!(s, "{}", c).is_ok());
}
'''),
 dict(id='eof-accepted', property='C25', needs='a reader which reports an unexpected end of file',
      breaks='a truncated input is taken for a complete one',
      edits=[('src/circuit.rs', 'read.read_to_string(&mut buf)?;',
              'match read.read_to_string(&mut buf) {\n            Err(e) if e.kind() != std::io::ErrorKind::UnexpectedEof => return Err(e.into()),\n            _ => (),\n        }')],
      main='''
use std::io::{Error, ErrorKind, Read};
struct Cut(&'static [u8]);
impl Read for Cut {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() { return Err(Error::from(ErrorKind::UnexpectedEof)) }
        let n = self.0.len().min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn main() {
    assert!(firrtl_ast::Circuit::from_read(Cut(b"circuit m:\\n  module m:\\n    skip\\n")).is_err());
}
'''),
 dict(id='write-error-lost', property='C25', needs='a sink which fails within a branch of a conditional, before its last statement',
      breaks='the error of a write is forgotten if a later write succeeds',
      edits=[('src/stmt/display.rs', 'self.0.iter().try_for_each(|s| s.fmt(indent, f))', 'self.0.iter().fold(Ok(()), |_, s| s.fmt(indent, f))')],
      main=PARSE + '''
use std::fmt::Write;
struct Once(usize, bool);
impl Write for Once {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        if self.1 { return Ok(()) }
        if self.0 == 0 { self.1 = true; return Err(std::fmt::Error) }
        self.0 -= 1;
        Ok(())
    }
}
fn main() {
    let c = circuit::parse("circuit m:\\n  module m:\\n    input c: UInt<1>\\n    when c:\\n      skip\\n      skip\\n      skip\\n").expect("parse");
    let mut n = 0;
    loop {
        let mut s = Once(n, false);
        let r = write!(s, "{}", c);
        if !s.1 { assert!(r.is_ok()); break }
        assert!(r.is_err());
        n += 1;
        if n > 10000 { break }
    }
}
'''),
 dict(id='last-line-ignored', property='C15', needs='garbage after the last module without a line end',
      breaks='an incomplete last line is not reported',
      edits=[('src/module/parsers.rs', 'if !self.current.is_empty() {', "if self.current.contains('\\n') {")],
      main=PARSE + '''
fn main() {
    assert!(circuit::parse("circuit m:\\n  module m:\\n    skip\\n  garbage").is_err());
}
'''),
 dict(id='branch-memory-lost', property='C16', needs='a memory declared in a branch and used after it',
      breaks='memories declared within a branch are not visible after it',
      edits=[('src/stmt/context.rs', 'take(&mut self.memories).into_iter().for_each(|(_, m)| self.parent.add_memory(m));',
              'self.memories.clear();')],
      main=PARSE + '''
fn main() {
    let s = stmts("circuit m:\\n  module m:\\n    input c: UInt<1>\\n    input clk: Clock\\n    when c:\\n      cmem x: UInt<3>[4]\\n    infer mport p = x[c], clk\\n");
    assert_eq!(s.len(), 2);
}
'''),
 dict(id='branch-sees-outer', property='C16', needs='a name declared again within a branch',
      breaks='within a branch the declaration outside is found instead of the latest one',
      edits=[('src/stmt/context.rs', 'self.entities.get(name).cloned().or_else(|| self.parent.entity(name))',
              'self.parent.entity(name).or_else(|| self.entities.get(name).cloned())')],
      main=PARSE + '''
use firrtl_ast::types::Typed;
fn main() {
    let s = stmts("circuit m:\\n  module m:\\n    input c: UInt<1>\\n    input x: UInt<3>\\n    when c:\\n      wire x: SInt<7>\\n      node y = x\\n");
    if let firrtl_ast::stmt::Kind::Conditional{when, ..} = s[0].kind() {
        assert_eq!(when[1].declarations().next().expect("node").r#type().expect("type").to_string(), "SInt<7>");
    } else {
        panic!("conditional")
    }
}
'''),
 dict(id='first-module-wins', property='C16', needs='two modules of one name, an instance after the second',
      breaks='an instance denotes the first module of a name instead of the latest',
      edits=[('src/module/parsers.rs', 'self.modules.insert(module.name.clone(), module.clone());',
              'self.modules.entry(module.name.clone()).or_insert(module);')],
      main=PARSE + '''
fn main() {
    let m = module("circuit m:\\n  module x:\\n    input a: UInt<1>\\n    skip\\n  module x:\\n    input b: UInt<2>\\n    skip\\n  module m:\\n    inst i of x\\n");
    assert_eq!(m.referenced_modules().next().expect("module").ports().next().expect("port").to_string(), "input b: UInt<2>");
}
'''),
 dict(id='type-depth-leak', property='C22', needs='many types in one thread which fail to parse',
      breaks='a guard against deep nesting counts in a thread-local and forgets to count back on errors',
      edits=[('src/types/parsers.rs', 'pub fn r#type(input: &str) -> IResult<super::Type> {\n    use super::Type as T;\n',
              '''pub fn r#type(input: &str) -> IResult<super::Type> {
    use super::Type as T;

    thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));
    if DEPTH.with(|d| d.replace(d.get() + 1)) > 100000 {
        return Err(nom::Err::Failure(nom::error::VerboseError{errors: Vec::new()}))
    }
'''),
             ('src/types/parsers.rs', "        map(ground_type, T::GroundType),\n    ))(input)?;\n", "        map(ground_type, T::GroundType),\n    ))(input)?;\n    DEPTH.with(|d| d.set(d.get() - 1));\n")],
      main=PARSE + '''
fn main() {
    let good = "circuit m:\\n  module m:\\n    input a: UInt<1>\\n    skip\\n";
    for _ in 0..120000 {
        assert!(circuit::parse("circuit m:\\n  module m:\\n    input a: Nope\\n    skip\\n").is_err());
    }
    assert!(circuit::parse(good).is_ok());
}
'''),
 dict(id='indent-same-level', property='C21', needs='a conditional without statements followed by a statement on its own level',
      breaks='lines which are not deeper than the parent are taken for its nested block',
      edits=[('src/indentation.rs', 'Indentation::MoreThan(l) if len > *l =>', 'Indentation::MoreThan(l) if len >= *l =>')],
      main=PARSE + '''
fn main() {
    let r = circuit::parse("circuit m:\\n  module m:\\n    input c: UInt<1>\\n    when c:\\n    skip\\n    skip\\n");
    if let Ok(c) = r {
        assert_eq!(c.top_module().statements().len(), 3);
    }
}
'''),
 dict(id='deeper-line-accepted', property='C21', needs='a line deeper than the block it follows',
      breaks='lines which are deeper than their block are accepted as part of it',
      edits=[('src/indentation.rs', 'Indentation::Exact(l) if len == *l => (),', 'Indentation::Exact(l) if len >= *l => (),')],
      main=PARSE + '''
fn main() {
    assert!(circuit::parse("circuit m:\\n  module m:\\n    skip\\n      skip\\n").is_err());
}
'''),
 dict(id='octal-by-ten', property='C26', needs='a literal in octal notation',
      breaks='octal literals are read in base ten',
      edits=[('src/expr/parsers.rs', "value(8, chr('o'))", "value(10, chr('o'))")],
      main=PARSE + '''
fn main() {
    let c = circuit::parse("circuit m:\\n  module m:\\n    node x = UInt<8>(\\"o17\\")\\n").expect("parse");
    assert!(c.to_string().contains("(15)"), "{}", c);
}
'''),
 dict(id='error-repeats', property='C14', needs='going on to ask for modules after an error',
      breaks='the sequence of modules never ends after an error',
      edits=[('src/module/parsers.rs', 'self.current = self.current.split_at(self.current.len()).1;', "self.current = self.current.trim_start_matches('\\n');")],
      main=PARSE + '''
fn main() {
    let c = circuit::consumer("circuit m:\\n  module m:\\n    nonsense\\n").expect("header");
    assert!(c.take(100).count() < 100);
}
'''),
 dict(id='cvt-overflow', property='C13', needs='asking for the type of a conversion to signed of an operand of the greatest width',
      breaks='the width of a conversion to signed overflows',
      edits=[('src/expr/primitive.rs', 'GT::UInt(w) => Ok(GT::SInt(w.and_then(|w| w.checked_add(1)))),', 'GT::UInt(w) => Ok(GT::SInt(w.map(|w| w + 1))),')],
      main='''
use firrtl_ast::{expr::{Expression, primitive::Operation}, stmt::Entity, types::Typed};
use std::sync::Arc;
fn main() {
    let e: Expression<Arc<Entity>> = Expression::UIntLiteral{value: 3u8.into(), width: 65535};
    let r = std::panic::catch_unwind(|| Operation::Cvt(Arc::new(e)).r#type().is_ok());
    assert_eq!(r.ok(), Some(true));
}
'''),
 dict(id='deep-nesting-rejected', property='C07', needs='conditionals nested more than five hundred deep',
      breaks='deeply nested conditionals are read but cannot be printed',
      edits=[('src/indentation.rs', "        (0..self.0).try_for_each(|_| f.write_char(' '))", "        if self.0 > 1024 {\n            return Err(fmt::Error)\n        }\n        (0..self.0).try_for_each(|_| f.write_char(' '))")],
      main=PARSE + '''
use std::fmt::Write;
fn deep() {
    let mut t = String::from("circuit m:\\n  module m:\\n    input c: UInt<1>\\n");
    for i in 0..520 {
        t += &format!("{}when c:\\n", " ".repeat(4 + i));
    }
    t += &format!("{}skip\\n", " ".repeat(530));
    let c = circuit::parse(&t).expect("parse");
    let mut s = String::new();
    assert!(write!(s, "{}", c).is_ok());
}
fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(deep).expect("thread").join().expect("printed");
}
'''),
 dict(id='ends-at-top', property='C15', needs='an error in the input after the top module',
      breaks='what follows the top module is not read any more',
      edits=[('src/circuit.rs', '        let res = self.modules.next();\n', '        if let TopState::Module(_) = &self.top_module {\n            return None\n        }\n        let res = self.modules.next();\n')],
      main=PARSE + '''
fn main() {
    assert!(circuit::parse("circuit m:\\n  module m:\\n    skip\\n  module n:\\n    nonsense\\n").is_err());
}
'''),
 dict(id='modules-hashed', property='C19', needs='a module with instances of several other modules',
      breaks='the order in which modules are printed depends on the hash table',
      edits=[('src/circuit.rs', 'module.referenced_modules().try_for_each(|m| fmt_module(done, indent, m, f))?;',
              'let used: std::collections::HashMap<_, _> = module.referenced_modules().map(|m| (m.name(), m)).collect();\n                used.values().try_for_each(|m| fmt_module(done, indent, m, f))?;')],
      main=PARSE + '''
fn main() {
    let mut t = String::from("circuit m:\\n");
    for i in 0..8 { t += &format!("  module x{}:\\n    skip\\n", i) }
    t += "  module m:\\n";
    for i in 0..8 { t += &format!("    inst i{} of x{}\\n", i, i) }
    let c = circuit::parse(&t).expect("parse");
    let s = c.to_string();
    for _ in 0..20 { assert_eq!(c.to_string(), s) }
}
'''),
]
