#[macro_use]
pub mod algebra;
pub mod engine;
pub mod film;
pub mod gen;
pub mod geom;
pub mod laws;
pub mod light;
pub mod m;
pub mod optics;
pub mod parts;
pub mod pipe;
pub mod render;
pub mod sampl;
pub mod trans;
pub mod whole;
pub mod xform;

pub fn props() -> Vec<&'static engine::Prop> {
    vec![&geom::C01, &geom::C02, &geom::C03, &geom::C04, &geom::C05, &geom::C06, &geom::C07, &geom::C31, &xform::C08, &xform::C09, &sampl::C10, &sampl::C11, &sampl::C32, &optics::C12, &optics::C13, &optics::C14, &optics::C15, &optics::C26, &light::C16, &film::C20, &film::C21, &film::C22, &trans::C17, &trans::C18, &trans::C19, &pipe::C23, &pipe::C24, &pipe::C30, &parts::C25, &parts::C27, &parts::C28, &laws::C29, &algebra::C33, &algebra::C34, &algebra::C35, &algebra::C36, &laws::C37, &whole::C38]
}
