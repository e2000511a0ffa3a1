import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PARSE = __import__('importlib').import_module('seeds_b').PARSE
SEEDS = [
 dict(id='reserved-names', property='C02', needs='an entity named like one of the expression keywords',
      breaks='a reference to an entity named mux or validif is written but no longer read',
      edits=[('src/expr/parsers.rs', 'map_opt(identifier, |name| reference(name).map(E::Reference)),',
              'map_opt(identifier, |name| if matches!(name, "mux" | "validif") { None } else { reference(name).map(E::Reference) }),')],
      main=PARSE + '''
fn main() {
    assert_eq!(stmts("circuit m:\\n  module m:\\n    input mux: UInt<3>\\n    output b: UInt<3>\\n    b <= mux\\n").len(), 1);
}
'''),
 dict(id='oriented-drops-outer', property='C11', needs='a bundle within a flipped field of a bundle',
      breaks='flips of nested bundles are not added up when the orientation of leaves is determined',
      edits=[('src/types/type.rs', 'f.r#type().with_orientation(f.orientation() + orientation)', 'f.r#type().with_orientation(f.orientation())')],
      main=PARSE + '''
use firrtl_ast::types::{Orientation, TypeExt};
fn main() {
    let m = module("circuit m:\\n  module m:\\n    input a: {flip x: {y: UInt<3>}}\\n");
    let t = m.ports().next().unwrap().r#type().with_orientation(Orientation::Normal);
    assert!(!t.is_passive());
}
'''),
 dict(id='combine-keeps-left', property='C12', needs='combining types whose widths differ, the narrower one first',
      breaks='the combination of equivalent types is the left one, whatever its widths',
      edits=[('src/types/type.rs', '.map(|res| if res == *lhs {', '.map(|res| if TypeExt::eq(&res, lhs) && lhs.ground_type().is_none() {')],
      main=PARSE + '''
use firrtl_ast::types::{Combinator, MaxWidth, Type};
fn main() {
    let m = module("circuit m:\\n  module m:\\n    input a: UInt<3>[2]\\n    input b: UInt<5>[2]\\n");
    let t: Vec<Type> = m.ports().map(|p| p.r#type().clone()).collect();
    let c: Type = MaxWidth::new().combine(&t[0], &t[1]).expect("combine");
    assert_eq!(c, t[1]);
}
'''),
 dict(id='duplicate-port-first', property='C16', needs='a module with two ports of the same name',
      breaks='a name shared by two ports denotes the first one',
      edits=[('src/stmt/context.rs', 'Self {entities: entities.into_iter().map(|e| (e.name().clone(), e)).collect(), ..self}',
              'let mut known = HashMap::new();\n        entities.into_iter().for_each(|e: Arc<Entity>| { known.entry(e.name().clone()).or_insert(e); });\n        Self {entities: known, ..self}')],
      main=PARSE + '''
fn main() {
    let s = stmts("circuit m:\\n  module m:\\n    input a: UInt<3>\\n    input a: UInt<7>\\n    node n = a\\n");
    assert!(format!("{:?}", s[0]).contains("UInt(Some(7))"));
}
'''),
 dict(id='modules-by-address', property='C19', needs='a module with instances of two other modules, allocated in an unfortunate order',
      breaks='the order in which modules are printed depends on where they are in memory',
      edits=[('src/module.rs', 'self.statements().iter().flat_map(Statement::instantiations).map(Instance::module)\n',
              'let mut used: Vec<_> = self.statements().iter().flat_map(Statement::instantiations).map(Instance::module).collect();\n        used.sort_by_key(|m| Arc::as_ptr(*m) as usize);\n        used.into_iter()\n')],
      main=PARSE + '''
use firrtl_ast::{Circuit, module::Instance, stmt::{Entity, Statement}};
fn main() {
    let a = Arc::new(Module::new(Arc::<str>::from("a"), None, firrtl_ast::module::Kind::empty_regular()));
    let b = Arc::new(Module::new(Arc::<str>::from("b"), None, firrtl_ast::module::Kind::empty_regular()));
    let text = |first: &Arc<Module>, second: &Arc<Module>| {
        let stmts = vec![inst("i", first), inst("j", second)];
        Circuit::new(Arc::new(Module::new(Arc::<str>::from("m"), None, firrtl_ast::module::Kind::Regular{stmts}))).to_string()
    };
    fn inst(n: &str, m: &Arc<Module>) -> Statement {
        firrtl_ast::stmt::Kind::Declaration(Arc::new(Entity::from(Instance::new(n, m.clone())))).into()
    }
    let (x, y) = (text(&a, &b), text(&b, &a));
    assert!(x.find("module a").unwrap() < x.find("module b").unwrap());
    assert!(y.find("module b").unwrap() < y.find("module a").unwrap());
}
'''),
 dict(id='env-in-errors', property='C22', needs='an environment variable which is set',
      breaks='the text of errors depends on the environment',
      edits=[('src/error.rs', 'nom::Err::Error(e) | nom::Err::Failure(e) => convert_error(input, e).into(),',
              'nom::Err::Error(e) | nom::Err::Failure(e) => if std::env::var_os("FIRRTL_SHORT_ERRORS").is_some() {\n            "syntax error".to_owned().into()\n        } else {\n            convert_error(input, e).into()\n        },')],
      main=PARSE + '''
fn main() {
    let e = |t| circuit::parse(t).err().unwrap().to_string();
    let a = e("circuit m");
    std::env::set_var("FIRRTL_SHORT_ERRORS", "1");
    assert_eq!(a, e("circuit m"));
}
'''),
 dict(id='memory-ports-unordered', property='C24', needs='two memories with the same ports in another order',
      breaks='memories are equal whatever the order of their ports',
      edits=[('src/memory/mem.rs', '#[derive(Clone, Debug, PartialEq)]\npub struct Memory {', '#[derive(Clone, Debug)]\npub struct Memory {'),
             ('src/memory/mem.rs', 'impl Named for Memory {', '''impl PartialEq for Memory {
    fn eq(&self, other: &Self) -> bool {
        self.name == other.name
            && self.data_type == other.data_type
            && self.depth == other.depth
            && self.ports.len() == other.ports.len()
            && self.ports.iter().all(|p| other.ports.contains(p))
            && self.read_latency == other.read_latency
            && self.write_latency == other.write_latency
            && self.read_under_write == other.read_under_write
    }
}

impl Named for Memory {''')],
      main=PARSE + '''
fn main() {
    let t = |a: &str, b: &str| module(&format!("circuit m:\\n  module m:\\n    mem x:\\n      data-type => UInt<3>\\n      depth => 4\\n      reader => {}\\n      reader => {}\\n", a, b));
    assert_ne!(t("a", "b"), t("b", "a"));
}
'''),
 dict(id='writes-after-error', property='C25', needs='a sink which fails within a block of statements and accepts text afterwards',
      breaks='statements following the one which could not be written are still written',
      edits=[('src/stmt/display.rs', 'self.0.iter().try_for_each(|s| s.fmt(indent, f))', 'self.0.iter().fold(Ok(()), |res, s| res.and(s.fmt(indent, f)))')],
      main=PARSE + '''
use std::fmt::Write;
struct Hole(usize, usize, usize);
impl Write for Hole {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        self.0 += 1;
        if self.0 == self.1 { return Err(std::fmt::Error) }
        if self.0 > self.1 { self.2 += 1 }
        Ok(())
    }
}
fn main() {
    let c = circuit::parse("circuit m:\\n  module m:\\n    input c: UInt<1>\\n    when c:\\n      skip\\n      skip\\n      skip\\n").expect("parse");
    for n in 1..60 {
        let mut h = Hole(0, n, 0);
        let r = write!(h, "{}", c);
        assert_eq!(h.2, 0);
        assert!(r.is_err() || h.0 < n);
    }
}
'''),
 dict(id='with-info-none-ignored', property='C20', needs='removing an info attribute',
      breaks='an info attribute cannot be removed by with_info',
      edits=[('src/info.rs', '        self.set_info(info);\n        self\n', '        if info.is_some() {\n            self.set_info(info);\n        }\n        self\n')],
      main=PARSE + '''
use firrtl_ast::info::WithInfo;
fn main() {
    let m = module("circuit m:\\n  module m: @[x]\\n");
    assert_eq!(m.info(), Some("x"));
    assert_eq!((*m).clone().with_info(None).info(), None);
}
'''),
 dict(id='extmodule-info-lost', property='C05', needs='an external module with an info attribute',
      breaks='infos of external modules are not printed',
      edits=[('src/module.rs', '            info::Info::of(self),\n', '            if self.statements().is_empty() && matches!(self.kind(), Kind::External{..}) { info::Info(None) } else { info::Info::of(self) },\n')],
      main=PARSE + '''
fn main() {
    again("circuit m:\\n  extmodule m: @[a]\\n    input a: Clock\\n");
}
'''),
 dict(id='info-carriage-return', property='C06', needs='an info attribute with a carriage return',
      breaks='carriage returns in infos are written as a letter',
      edits=[('src/info.rs', "                ']'  => write!", "                '\\r' => write!(f, \"\\\\r\"),\n                ']'  => write!")],
      main=PARSE + '''
use firrtl_ast::info::WithInfo;
fn main() {
    let m = module("circuit m:\\n  module m: @[a\\rb]\\n");
    assert_eq!(m.info(), Some("a\\rb"));
    again("circuit m:\\n  module m: @[a\\rb]\\n");
}
'''),
 dict(id='mux-unknown-width', property='C09', needs='a multiplexer of vectors, one of them of unknown width',
      breaks='multiplexers between equivalent vectors have the type of the first one',
      edits=[('src/expr.rs', '''                .combine(&a.r#type()?, &b.r#type()?)
                .map_err(|_| self.clone()),''', '''                .combine(&a.r#type()?, &b.r#type()?)
                .map_err(|_| self.clone())
                .and_then(|t| if t.vector().is_some() { a.r#type() } else { Ok(t) }),''')],
      main=PARSE + '''
use firrtl_ast::types::Typed;
fn main() {
    let s = stmts("circuit m:\\n  module m:\\n    input a: UInt<3>[2]\\n    input b: UInt<5>[2]\\n    input c: UInt<1>\\n    node n = mux(c, a, b)\\n");
    if let firrtl_ast::stmt::Kind::Declaration(e) = s[0].kind() {
        assert_eq!(e.r#type().unwrap().to_string(), "UInt<5>[2]");
        return
    }
    panic!();
}
'''),
 dict(id='depth-underflow', property='C13', needs='the type of a memory of depth zero',
      breaks='the address width of an empty memory is computed with an underflow',
      edits=[('src/types.rs', 'num.into().saturating_sub(1)', 'num.into() - 1')],
      main=PARSE + '''
use firrtl_ast::types::Typed;
fn main() {
    let s = stmts("circuit m:\\n  module m:\\n    mem x:\\n      data-type => UInt<3>\\n      depth => 0\\n");
    if let firrtl_ast::stmt::Kind::Declaration(e) = s[0].kind() {
        assert!(e.r#type().is_ok());
        return
    }
    panic!();
}
'''),
 dict(id='mul-point-saturates', property='C08', needs='a product of fixed point numbers whose points add up beyond the representable range',
      breaks='the point of such a product is reported as known although it is wrong',
      edits=[('src/expr/primitive.rs', '(Some(l), Some(r)) => l.checked_add(r),', '(Some(l), Some(r)) => Some(l.saturating_add(r)),')],
      main=PARSE + '''
use firrtl_ast::types::Typed;
fn main() {
    let s = stmts("circuit m:\\n  module m:\\n    input a: Fixed<3><<30000>>\\n    node n = mul(a, a)\\n");
    if let firrtl_ast::stmt::Kind::Declaration(e) = s[0].kind() {
        assert_eq!(e.r#type().unwrap().to_string(), "Fixed<6>");
        return
    }
    panic!();
}
'''),
 dict(id='consumer-skips-blank-name', property='C23', needs='modules which come after the top module',
      breaks='the modules following the top module are not handed out',
      edits=[('src/circuit.rs', '''        let res = self.modules.next();
''', '''        let mut res = self.modules.next();
        if let TopState::Module(_) = &self.top_module {
            while matches!(res.as_ref(), Some(Ok(m)) if m.ports().next().is_none() && m.statements().is_empty()) {
                res = self.modules.next();
            }
        }
''')],
      main=PARSE + '''
fn main() {
    let c = circuit::consumer("circuit m:\\n  module m:\\n  module a:\\n  module b:\\n").expect("parse");
    assert_eq!(c.count(), 3);
}
'''),
 dict(id='skip-swallows', property='C15', needs='a line which is not a statement at the end of the input',
      breaks='a malformed last line of a text without a final line break is ignored',
      edits=[('src/module/parsers.rs', '''                    self.current = i;
                    module''', '''                    self.current = if i.contains('\\n') { i } else { i.split_at(i.len()).1 };
                    module''')],
      main=PARSE + '''
fn main() {
    assert!(circuit::parse("circuit m:\\n  module m:\\n    skip\\n    bogus").is_err());
    assert!(circuit::parse("circuit m:\\n  module m:\\n    skip\\n").is_ok());
}
'''),
]
