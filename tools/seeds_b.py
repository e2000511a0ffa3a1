import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PARSE = __import__('importlib').import_module('seeds_a').PARSE + '''
#[allow(dead_code)]
fn again(text: &str) {
    let c = circuit::parse(text).expect("parse");
    assert_eq!(circuit::parse(&c.to_string()).expect("parse again"), c);
}
'''
SEEDS = [
 dict(id='names-ascii-only', property='C01', needs='a field name with a letter outside ASCII',
      breaks='names with letters outside ASCII are written but no longer read',
      edits=[('src/parsers.rs', "c.is_alphanumeric() || c == '_' || c == '$'", "c.is_ascii_alphanumeric() || c == '_' || c == '$'")],
      main=PARSE + '''
fn main() {
    let m = module("circuit m:\\n  module m:\\n    input a: {größe: UInt<3>, x: Clock}\\n");
    assert_eq!(m.ports().next().unwrap().r#type().to_string(), "{größe: UInt<3>, x: Clock}");
}
'''),
 dict(id='subfield-identifier', property='C02', needs='selecting a field whose name starts with a digit',
      breaks='a sub-field whose name starts with a digit is written but no longer read',
      edits=[('src/expr/parsers.rs', 'map(preceded(op("."), spaced(field_name)), |i| Subscript::Field(Arc::from(i))),',
              'map(preceded(op("."), spaced(identifier)), |i| Subscript::Field(Arc::from(i))),'),
             ('src/expr/parsers.rs', 'use types::parsers::{bitwidth, field_name};', 'use types::parsers::bitwidth;')],
      main=PARSE + '''
fn main() {
    let s = stmts("circuit m:\\n  module m:\\n    input a: {0: UInt<3>}\\n    output b: UInt<3>\\n    b <= a.0\\n");
    assert_eq!(s.len(), 1);
}
'''),
 dict(id='attach-info-lost', property='C03', needs='an attach statement with an info attribute',
      breaks='the info attribute of an attach statement is not kept by the reader',
      edits=[('src/stmt/parsers.rs', '|(i, _, _, e, _, info, _)| (i, S::from(Kind::Attach(e)).with_info(info)),',
              '|(i, _, _, e, ..)| (i, S::from(Kind::Attach(e))),')],
      main=PARSE + '''
fn main() {
    again("circuit m:\\n  module m:\\n    input a: Analog<1>\\n    attach(a, a) @[x]\\n");
    use firrtl_ast::info::WithInfo;
    assert_eq!(stmts("circuit m:\\n  module m:\\n    input a: Analog<1>\\n    attach(a, a) @[x]\\n")[0].info(), Some("x"));
}
'''),
 dict(id='else-when-info-lost', property='C03', needs='an else-when chain with an info attribute on the nested condition',
      breaks='the info attribute of the second condition of an else-when chain is not written',
      edits=[('src/stmt.rs', 'return fmt_indendet_cond(cond, when, r#else, indent, Info::of(stmt), f);',
              'return fmt_indendet_cond(cond, when, r#else, indent, Info::default(), f);')],
      main=PARSE + '''
fn main() {
    let t = "circuit m:\\n  module m:\\n    input c: UInt<1>\\n    when c: @[a]\\n      skip\\n    else when c: @[b]\\n      skip\\n";
    again(t);
}
'''),
 dict(id='memory-info-lost', property='C04', needs='a memory declaration with an info attribute',
      breaks='the info attribute of a memory declaration is read into nothing',
      edits=[('src/memory/parsers.rs', '|(_, _, name, _, info, ..)| (name, info)', '|(_, _, name, _, info, ..)| (name, info.filter(|i| i.starts_with("fir")))')],
      main=PARSE + '''
use firrtl_ast::info::WithInfo;
fn main() {
    let s = stmts("circuit m:\\n  module m:\\n    mem x: @[hello]\\n      data-type => UInt<4>\\n      depth => 16\\n      reader => r\\n");
    assert_eq!(s[0].info(), Some("hello"));
}
'''),
 dict(id='latency-omitted', property='C04', needs='a memory whose write latency equals its depth',
      breaks='the write latency of a memory is not written when it is the same as the number of elements',
      edits=[('src/memory/display.rs', '''        writeln!(f, "{}write-latency => {}", indentation.lock(), self.0.write_latency())?;''',
              '''        if u64::from(self.0.write_latency()) != self.0.depth() {
            writeln!(f, "{}write-latency => {}", indentation.lock(), self.0.write_latency())?;
        }''')],
      main=PARSE + '''
fn main() {
    let t = "circuit m:\\n  module m:\\n    mem x:\\n      data-type => UInt<4>\\n      depth => 16\\n      read-latency => 0\\n      write-latency => 16\\n      read-under-write => old\\n";
    again(t);
}
'''),
 dict(id='defname-elided', property='C05', needs='an external module whose defname equals its own name',
      breaks='the defname of an external module is not written if it is the module name',
      edits=[('src/module.rs', 'defname.as_ref().map(|n| writeln!', 'defname.as_ref().filter(|n| **n != self.name).map(|n| writeln!')],
      main=PARSE + '''
fn main() {
    again("circuit m:\\n  extmodule m:\\n    input c: Clock\\n    defname = m\\n    parameter a = 1\\n");
}
'''),
 dict(id='port-info-lost', property='C05', needs='a module port with an info attribute',
      breaks='the info attribute of a module port is dropped when the port is an output',
      edits=[('src/module/parsers.rs', '''            .with_info(info)
    )(input)
}


/// Parse a direction''', '''            .with_info(info.filter(|_| direction == super::Direction::Input))
    )(input)
}


/// Parse a direction''')],
      main=PARSE + '''
use firrtl_ast::info::WithInfo;
fn main() {
    let m = module("circuit m:\\n  module m:\\n    input c: Clock @[x]\\n    output d: Clock @[y]\\n");
    assert_eq!(m.ports().map(|p| p.info().map(str::to_owned)).collect::<Vec<_>>(), vec![Some("x".to_owned()), Some("y".to_owned())]);
}
'''),
 dict(id='info-escapes-unicode', property='C06', needs='a character outside ASCII in an info attribute',
      breaks='characters outside ASCII are written as escapes which the reader does not know',
      edits=[('src/info.rs', '''                c    => fmt::Display::fmt(&c, f),''',
              '''                c if c.is_ascii() => fmt::Display::fmt(&c, f),
                c    => fmt::Display::fmt(&c.escape_default(), f),''')],
      main='''
use firrtl_ast::{circuit, info::WithInfo};
fn main() {
    let c = circuit::parse("circuit m: @[grün]\\n  module m:\\n    skip\\n").expect("parse");
    let d = circuit::parse(&c.to_string()).expect("again");
    assert_eq!(d.info(), Some("grün"));
}
'''),
 dict(id='printf-control-char', property='C06', needs='a carriage return in a printf message',
      breaks='the reader of format strings also stops at a carriage return, which the writer writes as it is',
      edits=[('src/stmt/parsers.rs', 'verify(anychar, |c| !"%\\n\\t\\"".contains(*c)),', 'verify(anychar, |c| !"%\\r\\n\\t\\"".contains(*c)),')],
      main=PARSE + '''
fn main() {
    let s = stmts("circuit m:\\n  module m:\\n    input c: Clock\\n    printf(c, UInt<1>(1), \\"a\\rb\\")\\n");
    assert_eq!(s.len(), 1);
}
'''),
 dict(id='combine-vector-names', property='C12', needs='two bundles which disagree in the name of a field of vector type',
      breaks='field names are not compared for fields of a vector type',
      edits=[('src/types/type.rs', 'if lhs.name() == rhs.name() &&', 'if (lhs.name() == rhs.name() || lhs.r#type().vector_base().is_some()) &&')],
      main='''
use firrtl_ast::types::{BundleField, GroundType, Type, Combinator, MaxWidth};
use std::sync::Arc;
fn main() {
    let v: Type = Type::Vector(Arc::new(GroundType::UInt(Some(2)).into()), 3);
    let a: Type = vec![BundleField::new("a", v.clone())].into();
    let b: Type = vec![BundleField::new("b", v.clone())].into();
    assert!(Combinator::<Type>::combine(&MaxWidth::new(), &a, &b).is_err());
    assert!(Combinator::<Type>::combine(&MaxWidth::new(), &a, &a).is_ok());
}
'''),
 dict(id='declarations-skip-else', property='C17', needs='a declaration in the else branch of a conditional with an empty first branch',
      breaks='the else branch is only visited if the first branch has statements',
      edits=[('src/stmt.rs', 'when.iter().chain(r#else.iter()).collect()',
              'when.iter().chain(r#else.iter().take(if when.is_empty() { 0 } else { usize::MAX })).collect()')],
      main='''
use firrtl_ast::{expr::Expression, stmt::{Entity, Kind, Statement}, GroundType};
use std::sync::Arc;
fn main() {
    let c: Expression<Arc<Entity>> = Expression::UIntLiteral{value: 1u8.into(), width: 1};
    let w: Statement = Kind::Declaration(Arc::new(Entity::Wire{name: "w".into(), r#type: GroundType::Clock.into()})).into();
    let s: Statement = Kind::Conditional{cond: c, when: Vec::new().into(), r#else: vec![w].into()}.into();
    assert_eq!(s.declarations().count(), 1);
}
'''),
 dict(id='references-skip-index', property='C17', needs='a sub-access expression whose index is the same shared expression as its base',
      breaks='references in the index of a sub-access are not enumerated when it is the same as the base',
      edits=[('src/expr.rs', 'Expression::SubAccess{base, index}    => vec![base.as_ref(), index.as_ref()],',
              'Expression::SubAccess{base, index}    => if Arc::ptr_eq(base, index) {\n                vec![base.as_ref()]\n            } else {\n                vec![base.as_ref(), index.as_ref()]\n            },')],
      main='''
use firrtl_ast::{expr::Expression, stmt::Entity, GroundType};
use std::sync::Arc;
fn main() {
    let w = |n: &str| Arc::new(Expression::Reference(Arc::new(Entity::Wire{name: n.into(), r#type: GroundType::Clock.into()})));
    let a = w("a");
    let e = Expression::SubAccess{base: a.clone(), index: a};
    assert_eq!(e.references().count(), 2);
}
'''),
 dict(id='third-instance-late', property='C18', needs='a module which instantiates three or more different modules',
      breaks='the last of three or more instantiated modules is written after the module which instantiates it',
      edits=[('src/circuit.rs', '''            if done.insert(module.name()) {
                module.referenced_modules().try_for_each(|m| fmt_module(done, indent, m, f))?;
                module.fmt(indent, f)''', '''            if done.insert(module.name()) {
                let mut sub: Vec<&'a Module> = module.referenced_modules().map(AsRef::as_ref).collect();
                sub.dedup_by_key(|m| m.name());
                let last = if sub.len() > 2 { sub.pop() } else { None };
                sub.into_iter().try_for_each(|m| fmt_module(done, indent, m, f))?;
                module.fmt(indent, f)?;
                last.map(|m| fmt_module(done, indent, m, f)).unwrap_or(Ok(()))''')],
      main='''
use firrtl_ast::circuit;
fn main() {
    let t = "circuit m:\\n  module a:\\n    input c: Clock\\n  module b:\\n    input c: Clock\\n  module d:\\n    input c: Clock\\n  module m:\\n    inst x of a\\n    inst y of b\\n    inst z of d\\n";
    let c = circuit::parse(t).expect("parse");
    assert_eq!(circuit::parse(&c.to_string()).expect("again"), c);
}
'''),
 dict(id='done-by-first-letter', property='C18', needs='two modules of the circuit with names of different case',
      breaks='a module whose name differs from that of a printed one in case only is left out',
      edits=[('src/circuit.rs', 'let mut done = Default::default();', 'let mut done = HashSet::<String>::default();'),
             ('src/circuit.rs', "done: &mut HashSet<&'a str>,", "done: &mut HashSet<String>,"),
             ('src/circuit.rs', 'if done.insert(module.name()) {', 'if done.insert(module.name().to_lowercase()) {')],
      main='''
use firrtl_ast::circuit;
fn main() {
    let t = "circuit m:\\n  module M:\\n    input c: Clock\\n  module m:\\n    inst x of M\\n";
    let c = circuit::parse(t).expect("parse");
    assert_eq!(circuit::parse(&c.to_string()).expect("again"), c);
}
'''),
 dict(id='add-ports-dedup', property='C20', needs='adding a port to a memory which has one of that name',
      breaks='adding a number of ports drops those whose name the memory already has',
      edits=[('src/memory/mem.rs', 'self.ports.extend(ports);', 'for port in ports {\n            if self.ports.iter().all(|p| p.name != port.name) {\n                self.ports.push(port);\n            }\n        }')],
      main='''
use firrtl_ast::{memory::mem::{Memory, Port}, memory::common::PortDir, types::GroundType};
fn main() {
    let mut m = Memory::new("m", GroundType::Clock, 4);
    m.add_port(Port{name: "w".into(), dir: PortDir::Write});
    m.add_ports(std::iter::once(Port{name: "w".into(), dir: PortDir::Read}));
    assert_eq!(m.ports().count(), 2);
}
'''),
 dict(id='with-type-normal', property='C20', needs='changing the type of a flipped field to a vector',
      breaks='changing the type of a field to a vector drops its orientation',
      edits=[('src/types/type.rs', 'Self {r#type: r#type.into(), ..self}', 'let r#type = r#type.into();\n        match r#type {\n            Type::Vector(..) => Self {r#type, ..Self::new(self.name, GroundType::Clock)},\n            r#type => Self {r#type, ..self},\n        }')],
      main='''
use firrtl_ast::types::{BundleField, GroundType, Type, Orientation};
use std::sync::Arc;
fn main() {
    let v = Type::Vector(Arc::new(GroundType::Clock.into()), 3);
    let f = BundleField::new("a", GroundType::Clock).flipped().with_type(v);
    assert_eq!(f.orientation(), Orientation::Flipped);
}
'''),
 dict(id='consumer-last-wins', property='C23', needs='two modules with the name of the top module',
      breaks='the circuit is made of the last module with the top name, not the first',
      edits=[('src/circuit.rs', '''        if let (Some(Ok(m)), TopState::Name(n)) = (res.as_ref(), &self.top_module) {
            if n == m.name_ref() {''', '''        if let Some(Ok(m)) = res.as_ref() {
            let n = match &self.top_module {
                TopState::Name(n) => n.as_str(),
                TopState::Module(m) => m.name_ref(),
            };
            if n == m.name_ref() {''')],
      main='''
use firrtl_ast::circuit;
fn main() {
    let t = "circuit m:\\n  module m:\\n    input c: Clock\\n  module m:\\n    input d: Clock\\n";
    let c = circuit::parse(t).expect("parse");
    assert_eq!(c.top_module().ports().next().unwrap().to_string(), "input c: Clock");
}
'''),
 dict(id='ground-eq-width', property='C24', needs='comparing a type with a ground type of unknown width',
      breaks='a type equals a ground type of the same kind and unknown width whatever its own width is',
      edits=[('src/types/type.rs', 'Self::GroundType(g) => g == other,', 'Self::GroundType(g) => g == other || (other.width().is_none() && g.width() == Some(0) && g.with_width(None) == *other),')],
      main='''
use firrtl_ast::types::{GroundType, Type};
fn main() {
    let t: Type = GroundType::UInt(Some(0)).into();
    assert!(t != GroundType::UInt(None));
}
'''),
]
