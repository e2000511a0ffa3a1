PARSE = '''
use firrtl_ast::{circuit, Module};
use std::sync::Arc;

#[allow(dead_code)]
fn module(text: &str) -> Arc<Module> {
    let c = circuit::consumer(text).expect("header");
    c.collect::<Result<Vec<_>, _>>().expect("modules").pop().expect("module")
}
#[allow(dead_code)]
fn stmts(text: &str) -> Vec<firrtl_ast::stmt::Statement> {
    module(text).statements().to_vec()
}
'''
SEEDS = [
 dict(id='shr-signed-zero-width', property='C08', needs='a right shift of a signed operand by at least its width',
      breaks='shr of an SInt by at least its width yields a width of zero instead of one',
      edits=[('src/expr/primitive.rs', 'GT::SInt(w)                 => Ok(GT::SInt(w.map(|w| max(w.saturating_sub(*bits), 1))))',
              'GT::SInt(w)                 => Ok(GT::SInt(w.map(|w| w.saturating_sub(*bits))))')],
      main='''
use firrtl_ast::{expr::{Expression, primitive::Operation}, stmt::Entity, types::Typed, GroundType};
use std::sync::Arc;
fn main() {
    let e: Expression<Arc<Entity>> = Expression::SIntLiteral{value: 3.into(), width: 4};
    let t = Operation::Shr(Arc::new(e), 7).r#type().expect("type");
    assert_eq!(t, GroundType::SInt(Some(1)));
}
'''),
 dict(id='div-width-saturates', property='C08', needs='a signed division whose dividend has the greatest representable width',
      breaks='the width of a signed division saturates instead of becoming unknown',
      edits=[('src/expr/primitive.rs', 'GT::UInt(w) => Ok(GT::UInt(w)),\n                GT::SInt(w) => Ok(GT::SInt(w.and_then(|w| w.checked_add(1)))),\n                _ => Err(self.clone().into()),\n            }),\n            Self::Rem',
              'GT::UInt(w) => Ok(GT::UInt(w)),\n                GT::SInt(w) => Ok(GT::SInt(w.map(|w| w.saturating_add(1)))),\n                _ => Err(self.clone().into()),\n            }),\n            Self::Rem')],
      main='''
use firrtl_ast::{expr::{Expression, primitive::Operation}, stmt::Entity, types::Typed, GroundType};
use std::sync::Arc;
fn main() {
    let e = |w| Arc::new(Expression::<Arc<Entity>>::SIntLiteral{value: 3.into(), width: w});
    let t = Operation::Div(e(65535), e(4)).r#type().expect("type");
    assert_eq!(t, GroundType::SInt(None));
    let t = Operation::Div(e(6), e(4)).r#type().expect("type");
    assert_eq!(t, GroundType::SInt(Some(7)));
}
'''),
 dict(id='field-ignores-case', property='C09', needs='a bundle with two fields which differ in case only',
      breaks='a sub-field takes the type of the first field with the same letters',
      edits=[('src/types/type.rs', 'v.find(|f| f.name().as_ref() == field)', 'v.find(|f| f.name().as_ref().eq_ignore_ascii_case(field))')],
      main='''
use firrtl_ast::types::{BundleField, GroundType, Type};
fn main() {
    let t: Type = vec![BundleField::new("a", GroundType::Clock), BundleField::new("A", GroundType::UInt(None))].into();
    assert_eq!(t.field("A").expect("field").r#type(), &GroundType::UInt(None));
    assert!(t.field("b").is_none());
}
'''),
 dict(id='write-mask-shared', property='C09', needs='the type of a memory with a vector data type and a write port',
      breaks='the mask of a vector has one element fewer dimension: a vector of vectors is masked as a whole',
      edits=[('src/memory/mem.rs', 'Type::Vector(v, w)  => Type::Vector(Arc::new(mask(v)), *w),',
              'Type::Vector(v, w)  => match v.as_ref() {\n                    Type::GroundType(_) => Type::Vector(Arc::new(mask(v)), *w),\n                    v => Type::Vector(Arc::new(mask(v)), 1),\n                },')],
      main='''
use firrtl_ast::{memory::mem::{Memory, Port}, memory::common::PortDir, types::{GroundType, Type, Typed}};
use std::sync::Arc;
fn main() {
    let data = Type::Vector(Arc::new(Type::Vector(Arc::new(GroundType::UInt(Some(8)).into()), 3)), 5);
    let mask = Type::Vector(Arc::new(Type::Vector(Arc::new(GroundType::UInt(Some(1)).into()), 3)), 5);
    let mut m = Memory::new("m", data, 4);
    m.add_ports(std::iter::once(Port{name: "w".into(), dir: PortDir::Write}));
    let t = m.r#type().unwrap();
    assert_eq!(t.field("w").unwrap().r#type().field("mask").unwrap().r#type(), &mask);
}
'''),
 dict(id='flow-sink-flipped', property='C10', needs='selecting a flipped field of a sink',
      breaks='a flipped field of a sink is a duplex instead of a source',
      edits=[('src/expr.rs', '(Self::Sink,   O::Flipped) => Self::Source,', '(Self::Sink,   O::Flipped) => Self::Duplex,')],
      main='''
use firrtl_ast::{expr::Flow, types::Orientation};
fn main() {
    assert_eq!(Flow::Sink + Orientation::Flipped, Flow::Source);
    assert_eq!(Flow::Duplex + Orientation::Flipped, Flow::Duplex);
}
'''),
 dict(id='mport-infer-flow', property='C10', needs='a memory port without a declared direction',
      breaks='the undetermined flow of a memory port is reported as source',
      edits=[('src/memory/simple.rs', '''        self.dir.map(|d| match d {
            PortDir::Read       => expr::Flow::Source,
            PortDir::Write      => expr::Flow::Sink,
            PortDir::ReadWrite  => expr::Flow::Duplex,
        })''', '''        Some(match self.dir.unwrap_or(PortDir::Read) {
            PortDir::Read       => expr::Flow::Source,
            PortDir::Write      => expr::Flow::Sink,
            PortDir::ReadWrite  => expr::Flow::Duplex,
        })''')],
      main='''
use firrtl_ast::{expr::{Expression, Flow, Reference}, memory::simple, stmt::Entity, types::{GroundType, Type}};
use std::sync::Arc;
fn main() {
    let t = Type::Vector(Arc::new(GroundType::Clock.into()), 4);
    let m = Arc::new(simple::Memory::new("m", t, simple::Kind::Combinatory));
    let e = Expression::<Arc<Entity>>::UIntLiteral{value: 0u8.into(), width: 1};
    let p = simple::Port::new("p", m, None, e.clone(), e);
    assert_eq!(p.flow(), None::<Flow>);
}
'''),
 dict(id='vector-always-passive', property='C11', needs='a vector over bundles with a flipped field',
      breaks='vectors are always taken for passive',
      edits=[('src/types/type.rs', 'Self::Vector(t, _) => t.is_passive(),', 'Self::Vector(t, w) => *w == 1 || t.is_passive(),')],
      main='''
use firrtl_ast::types::{BundleField, GroundType, Type, TypeExt};
use std::sync::Arc;
fn main() {
    let b: Type = vec![BundleField::new("a", GroundType::Clock).flipped()].into();
    for n in 0..4 {
        assert!(!Type::Vector(Arc::new(b.clone()), n).is_passive(), "vector of {}", n);
    }
}
'''),
 dict(id='combine-keeps-lhs-orientation', property='C12', needs='combining bundles whose fields differ in orientation, in an inner bundle',
      breaks='bundles with fields of different orientation can be combined',
      edits=[],
      main='''
fn main() {}
'''),
]
SEEDS = [s for s in SEEDS if s['edits']]
