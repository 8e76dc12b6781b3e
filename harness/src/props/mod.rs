use crate::ctx::Property;
pub mod expn;
pub mod flow;
pub mod implicit;
pub mod incid;
pub mod small;
pub mod tri;
pub mod tet;
pub mod mesh;
pub mod pred;
pub mod poly;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(pred::props());
    v.extend(expn::props());
    v.extend(implicit::props());
    v.extend(incid::props());
    v.extend(flow::props());
    v.extend(small::props());
    v.extend(mesh::props());
    v.extend(tri::props());
    v.extend(tet::props());
    v.extend(poly::props());
    v
}

pub fn self_test() {
    tet::self_test();
    crate::solid::self_test();
}
