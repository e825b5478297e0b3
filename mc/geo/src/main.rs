mod angles;
mod areas;
mod common;
mod curves;
mod history;
mod lines;
mod pure;
mod segs;
mod values;
mod work;

#[global_allocator]
static ALLOCATOR: mccore::alloc::Counting = mccore::alloc::Counting;

use mccore::Property;

fn main() {
    let props: Vec<Property> = vec![segs::c01(), curves::c02(), history::c03(), segs::c04(), curves::c05(), curves::c06(), curves::c07(), angles::c10(), angles::c19(), values::c20(), pure::c23(), values::c24(), lines::c08(), lines::c09(), lines::c13(), areas::c11(), areas::c12(), areas::c14(), areas::c15(), areas::c16(), areas::c17(), areas::c18(), work::c25()];
    mccore::main_with(&props)
}
