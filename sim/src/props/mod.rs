use crate::deliver::*;
use crate::driver::*;
use crate::gen::{self, image::ImgOpts, track::TrackOpts, Fmt, Media, IMAGES, TRACKS};
use crate::src::Src;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c07;
mod c08;
mod c09;
mod c10;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;

pub fn all() -> Vec<Prop> {
    vec![
        c01::PROP,
        c02::PROP,
        c03::PROP,
        c04::PROP,
        c05::PROP,
        c05::C06,
        c07::PROP,
        c08::PROP,
        c09::PROP,
        c10::PROP,
        c10::C11,
        c12::PROP,
        c13::PROP,
        c14::PROP,
        c15::PROP,
        c16::PROP,
        c17::PROP,
        c18::PROP,
        c19::PROP,
        c20::PROP,
    ]
}

pub fn any_media(s: &mut Src, io: &ImgOpts, to: &TrackOpts) -> Media {
    if s.us(3) == 2 {
        let f = *s.pick(&TRACKS);
        gen::track::gen(s, f, to)
    } else {
        let f = *s.pick(&IMAGES);
        gen::image::gen(s, f, io)
    }
}
pub fn any_media_or_motion(s: &mut Src, io: &ImgOpts, to: &TrackOpts) -> Media {
    if s.us(10) == 9 {
        let big = io.big && s.us(3) > 0;
        gen::motion::gen(s, io.no_exif, big, None).m
    } else {
        any_media(s, io, to)
    }
}
pub fn any_op(s: &mut Src, m: &Media) -> Op {
    // mostly the op that fits the file
    let fit = if m.fmt.is_track() { Op::Track } else { *s.pick(&[Op::Exif, Op::Exif, Op::Image]) };
    if s.us(12) == 11 {
        *s.pick(&OPS)
    } else {
        fit
    }
}
pub fn fmt_name(f: Fmt) -> String {
    format!("{f:?}")
}
