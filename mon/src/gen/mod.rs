//! Workload generators.
pub mod assets;
pub mod circ;
pub mod ecc;
pub mod flat;
pub mod prog;
use hugr::types::EdgeKind;
use hugr::{Hugr, HugrView, Node, PortIndex};
use hugr::ops::OpType;

/// Compact text listing of a HUGR.
pub fn dump(h: &Hugr) -> String {
    let mut s = String::new();
    fn rec(h: &Hugr, n: Node, d: usize, s: &mut String) {
        use std::fmt::Write;
        if s.len() > 60_000 {
            return;
        }
        let op = h.get_optype(n);
        let mut ins = vec![];
        for p in h.node_inputs(n) {
            for (m, q) in h.linked_outputs(n, p) {
                let k = match op.port_kind(p) {
                    Some(EdgeKind::StateOrder) => "~",
                    Some(EdgeKind::Value(_)) => "",
                    _ => "^",
                };
                ins.push(format!("{k}{}.{}", m.index_(), q.index()));
            }
        }
        let mut name = format!("{op}");
        match op {
            OpType::Const(c) => name = format!("const {:?}", c.value()).chars().take(160).collect(),
            OpType::ExtensionOp(e) => name = format!("{}{}", e.def().name(), crate::interp::args_text(e.args())),
            OpType::FuncDefn(f) => name = format!("func {} {}", f.func_name(), f.signature()),
            OpType::Tag(t) => name = format!("Tag({})", t.tag),
            OpType::Input(i) => name = format!("Input {}", i.types),
            _ => {}
        }
        writeln!(s, "{}{} {} <- {}{}", "  ".repeat(d), n.index_(), name, ins.join(","), if n == h.entrypoint() {" [entry]"} else {""}).unwrap();
        for c in h.children(n) {
            rec(h, c, d + 1, s);
        }
    }
    rec(h, h.module_root(), 0, &mut s);
    s
}
trait Idx {
    fn index_(&self) -> usize;
}
impl Idx for Node {
    fn index_(&self) -> usize {
        hugr::NodeIndex::index(*self)
    }
}
