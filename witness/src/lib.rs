//! Type-level witnesses: this crate builds exactly as long as everything the
//! public parsers hand out (values and errors) owns its data and may be moved
//! to, and shared with, another thread.  Nothing in it is ever executed; the
//! deciding step is the type and borrow checker.
//!
//! Each `witness!` is one obligation site.  check.py counts them, so keep one
//! per line.
use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
use libmbus::parse::application_layer::dib::DataInfoBlock;
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::{parse_binary, Record};
use libmbus::parse::application_layer::vib::{dump_remaining_vifes, parse_vif_byte, ValueInfoBlock};
use libmbus::parse::error::{MBResult, MBusError};
use libmbus::parse::link_layer::Packet;
use libmbus::parse::transport_layer::header::{DeviceType, LongHeader, ShortHeader};
use libmbus::parse::transport_layer::manufacturer::{device_name, unpack_manufacturer_code};
use libmbus::parse::transport_layer::MBusMessage;
use libmbus::parse::types::date::{TypeFDateTime, TypeGDate, TypeIDateTime, TypeJTime, TypeKDST};
use libmbus::parse::types::number::{parse_bcd, parse_binary_signed, parse_binary_unsigned, parse_invalid_bcd, parse_real};
use libmbus::parse::types::string::{parse_latin1, parse_length_prefix_ascii};
use winnow::error::ErrMode;
use winnow::{Bytes, Parser, Partial};

fn can_be_sent<T: Send>(_: &T) {}
fn can_be_shared<T: Sync>(_: &T) {}
fn owns_its_data<T: 'static>(_: T) {}

/// Never run: stands for any value of the type.
fn some<T>() -> T {
	unreachable!()
}

/// What a parser returned must satisfy all three after the buffer it was
/// decoded from is gone.
macro_rules! witness {
	($name:ident, |$input:ident| $parse:expr) => {
		witness!($name, |buffer| Bytes::new(buffer), |$input| $parse);
	};
	($name:ident, bits |$input:ident| $parse:expr) => {
		witness!($name, |buffer| (Bytes::new(buffer), 0usize), |$input| $parse);
	};
	($name:ident, partial |$input:ident| $parse:expr) => {
		witness!($name, |buffer| Partial::new(Bytes::new(buffer)), |$input| $parse);
	};
	($name:ident, |$buffer:ident| $make:expr, |$input:ident| $parse:expr) => {
		pub fn $name(data: Vec<u8>) {
			let result = {
				let owner = data;
				let $buffer = &owner[..];
				let mut input = $make;
				let $input = &mut input;
				let result = $parse;
				result
			};
			can_be_sent(&result);
			can_be_shared(&result);
			owns_its_data(result);
		}
	};
}

witness!(packet, |input| Packet::parse(input));
witness!(packet_complete, |input| Packet::parse.parse(*input).map_err(|e| e.into_inner()));
witness!(packet_partial, partial |input| Packet::parse(input));
witness!(message, |input| MBusMessage::parse(input));
witness!(short_header, |input| ShortHeader::parse(input));
witness!(long_header, |input| LongHeader::parse(input));
witness!(frame, |input| Frame::parse(input));
witness!(record, |input| Record::parse(input));
witness!(data_info, bits |input| DataInfoBlock::parse(input));
witness!(value_info, bits |input| ValueInfoBlock::parse(input));
witness!(vif_byte, bits |input| parse_vif_byte(input));
witness!(vifes, bits |input| dump_remaining_vifes(input));
witness!(selection, |input| ApplicationMessage::parse(input));
witness!(application_error, |input| ApplicationErrorMessage::parse(input));
witness!(type_f, |input| TypeFDateTime::parse(input));
witness!(type_g, |input| TypeGDate::parse(input));
witness!(type_i, |input| TypeIDateTime::parse(input));
witness!(type_j, |input| TypeJTime::parse(input));
witness!(type_k, |input| TypeKDST::parse(input));
witness!(bcd, |input| { let r: MBResult<_> = parse_bcd(4).parse_next(input); r });
witness!(invalid_bcd, |input| { let r: MBResult<_> = parse_invalid_bcd(4).parse_next(input); r });
witness!(signed, |input| { let r: MBResult<_> = parse_binary_signed(4).parse_next(input); r });
witness!(unsigned, |input| { let r: MBResult<_> = parse_binary_unsigned(4).parse_next(input); r });
witness!(binary, |input| { let r: MBResult<_> = parse_binary(true, 4).parse_next(input); r });
witness!(real, |input| { let r: MBResult<_> = parse_real(input); r });
witness!(ascii, |input| { let r: MBResult<_> = parse_length_prefix_ascii(input); r });
witness!(latin1, |input| { let r: MBResult<_> = parse_latin1(4).parse_next(input); r });
witness!(manufacturer, |input| unpack_manufacturer_code((*input).len() as u16));
witness!(model, |input| device_name(input, 0, 0, some::<DeviceType>()));
witness!(error, |input| { let _ = input; ErrMode::Cut(MBusError::new()) });
