//! The contracts annotated in place on the functions of /repo (cfg colorz_contracts), each checked
//! for all inputs its precondition admits. One module per property the function carries.
use crate::common::*;
use colorz::__verif::{from_str, style};
use colorz::ansi::AnsiColor;
use colorz::mode::{self, Mode, Stream};
use colorz::rgb::__verif as rgb;
use colorz::xterm::XtermColor;
use colorz::{Effect, EffectFlags, EffectFlagsIter};

macro_rules! check { ($($m:ident { $($n:ident [$($path:tt)*] $e:expr;)* })*) => { $( pub mod $m {
    use super::*;
    $( #[kani::proof_for_contract($($path)*)]
    #[kani::unwind(24)]
    fn $n() { let _ = $e; } )*
} )* } }

/// any set, made without the functions under contract
fn flags() -> EffectFlags {
    let data: u16 = kani::any();
    kani::assume(data < 1 << 13);
    unsafe { core::mem::transmute(data) }
}
fn effect() -> Effect {
    let data: u8 = kani::any();
    kani::assume(data < 13);
    unsafe { core::mem::transmute(data) }
}
fn iter() -> EffectFlagsIter {
    unsafe { core::mem::transmute(flags()) }
}
fn buffer() -> ([u8; 19], u8) {
    (kani::any(), kani::any())
}

check! {
    k11 {
        decode [colorz::Effect::decode] style::decode(kani::any());
        mask [colorz::Effect::mask] style::mask(effect());
        is_plain [colorz::EffectFlags::is_plain] flags().is_plain();
        at_most_one_effect [colorz::EffectFlags::at_most_one_effect] style::at_most_one_effect(flags());
        is [colorz::EffectFlags::is] flags().is(effect());
        is_any [colorz::EffectFlags::is_any] flags().is_any(flags());
        with [colorz::EffectFlags::with] flags().with(effect());
        without [colorz::EffectFlags::without] flags().without(effect());
        toggled [colorz::EffectFlags::toggled] flags().toggled(effect());
        set [colorz::EffectFlags::set] flags().set(effect());
        unset [colorz::EffectFlags::unset] flags().unset(effect());
        toggle [colorz::EffectFlags::toggle] flags().toggle(effect());
        make_iter [colorz::EffectFlags::iter] flags().iter();
        next [<colorz::EffectFlagsIter as core::iter::Iterator>::next] iter().next();
    }
    k08 {
        parse_hex_digit [colorz::from_str::parse_hex_digit] from_str::parse_hex_digit(kani::any());
        merge [colorz::from_str::merge] from_str::merge(kani::any(), kani::any());
    }
    k10 {
        encode_mode [colorz::mode::Mode::encode] mode::__verif::encode_mode(any_mode());
        encode_stream [colorz::mode::Stream::encode] mode::__verif::encode_stream(any_stream());
        decode_stream [colorz::mode::Stream::decode] mode::__verif::decode_stream(kani::any());
        set_coloring_mode [colorz::mode::set_coloring_mode] mode::set_coloring_mode(any_mode());
        get_coloring_mode [colorz::mode::get_coloring_mode] mode::get_coloring_mode();
        set_default_stream [colorz::mode::set_default_stream] mode::set_default_stream(any_stream());
    }
    k02 {
        should_color [colorz::mode::should_color] {
            mode::set_coloring_mode(any_mode());
            mode::set_default_stream(any_stream());
            mode::should_color(any_stream_opt(), &[any_kind(), any_kind(), any_kind()])
        };
    }
    k07 {
        write_u8 [colorz::rgb::RgbBuffer::write_u8] rgb::write_u8(buffer().0, buffer().1, kani::any());
        write_char [colorz::rgb::RgbBuffer::write_char] rgb::write_char(buffer().0, buffer().1, kani::any());
        write_sep [colorz::rgb::RgbBuffer::write_sep] rgb::write_sep(buffer().0, buffer().1);
        args_payload [colorz::rgb::RgbBuffer::args_payload] rgb::args_payload(buffer().0, buffer().1);
        raw_args_payload [colorz::rgb::RgbBuffer::raw_args_payload] rgb::raw_args_payload(buffer().0, buffer().1);
        const_rgb_buffer [colorz::rgb::const_rgb_buffer] rgb::comptime(kani::any(), kani::any(), kani::any(), kani::any());
    }
    k19 {
        from_code [colorz::xterm::XtermColor::from_code] XtermColor::from_code(kani::any());
        to_xterm [colorz::ansi::AnsiColor::to_xterm] crate::c05::ANSI[any_index(16)].0.to_xterm();
    }
    k09 {
        parse_mode [colorz::mode::Mode::from_ascii_bytes] Mode::from_ascii_bytes(crate::c08::any_bytes());
        parse_stream [colorz::mode::Stream::from_ascii_bytes] Stream::from_ascii_bytes(crate::c08::any_bytes());
    }
}

#[cfg(feature = "scn")]
check! {
    k16 {
        encode_support [colorz::mode::ColorSupport::encode] mode::__verif::encode_support(kani::any(), kani::any(), kani::any());
    }
}
