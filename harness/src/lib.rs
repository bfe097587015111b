//! Analysis roots: one function per public entry point of libmbus.  Nothing in
//! this crate is ever executed; the analyzer reads the MIR of everything
//! reachable from these functions.
#![feature(try_trait_v2)]
use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
use libmbus::parse::application_layer::dib::DataInfoBlock;
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::{parse_binary, Record};
use libmbus::parse::application_layer::vib::{dump_remaining_vifes, parse_vif_byte, ValueInfoBlock, ValueType};
use libmbus::parse::error::{MBResult, MBusError};
use libmbus::parse::link_layer::Packet;
use libmbus::parse::transport_layer::header::{DeviceType, LongHeader, ShortHeader, TPLHeader};
use libmbus::parse::transport_layer::manufacturer::{device_name, unpack_manufacturer_code};
use libmbus::parse::transport_layer::MBusMessage;
use libmbus::parse::types::date::{TypeFDateTime, TypeGDate, TypeIDateTime, TypeJTime, TypeKDST};
use libmbus::parse::types::number::{parse_bcd, parse_binary_signed, parse_binary_unsigned, parse_invalid_bcd, parse_real};
use libmbus::parse::types::string::{parse_latin1, parse_length_prefix_ascii};
use libmbus::parse::types::{BitsInput, DataType};
use winnow::{Bytes, ModalResult, Parser, Partial};

pub mod model;

pub fn root_packet(input: &mut &Bytes) -> ModalResult<Packet, MBusError> {
	Packet::parse(input)
}
pub fn root_partial(input: &mut &Bytes) -> ModalResult<Packet, MBusError> {
	let mut partial = Partial::new(*input);
	let result = Packet::parse(&mut partial);
	*input = partial.into_inner();
	result
}
pub fn root_message(input: &mut &Bytes) -> MBResult<MBusMessage> {
	MBusMessage::parse(input)
}
pub fn root_short_header(input: &mut &Bytes) -> MBResult<TPLHeader> {
	ShortHeader::parse(input)
}
pub fn root_long_header(input: &mut &Bytes) -> MBResult<TPLHeader> {
	LongHeader::parse(input)
}
pub fn root_frame(input: &mut &Bytes) -> MBResult<Frame> {
	Frame::parse(input)
}
pub fn root_record(input: &mut &Bytes) -> MBResult<Record> {
	Record::parse(input)
}
pub fn root_dib(input: &mut BitsInput<'_>) -> MBResult<DataInfoBlock> {
	DataInfoBlock::parse(input)
}
pub fn root_vib(input: &mut BitsInput<'_>) -> MBResult<ValueInfoBlock> {
	ValueInfoBlock::parse(input)
}
pub fn root_vif_byte(input: &mut BitsInput<'_>) -> MBResult<(bool, u8)> {
	parse_vif_byte(input)
}
pub fn root_vifes(input: &mut BitsInput<'_>) -> MBResult<Vec<u8>> {
	dump_remaining_vifes(input)
}
pub fn root_is_unsigned(v: &ValueType) -> bool {
	v.is_unsigned()
}
pub fn root_is_boolean(v: &ValueType) -> bool {
	v.is_boolean()
}
pub fn root_app_message(input: &mut &Bytes) -> MBResult<Option<ApplicationMessage>> {
	ApplicationMessage::parse(input)
}
pub fn root_app_error(input: &mut &Bytes) -> MBResult<ApplicationErrorMessage> {
	ApplicationErrorMessage::parse(input)
}
pub fn root_type_f(input: &mut &Bytes) -> MBResult<TypeFDateTime> {
	TypeFDateTime::parse(input)
}
pub fn root_type_g(input: &mut &Bytes) -> MBResult<TypeGDate> {
	TypeGDate::parse(input)
}
pub fn root_type_i(input: &mut &Bytes) -> MBResult<TypeIDateTime> {
	TypeIDateTime::parse(input)
}
pub fn root_type_j(input: &mut &Bytes) -> MBResult<TypeJTime> {
	TypeJTime::parse(input)
}
pub fn root_type_k(input: &mut &Bytes) -> MBResult<TypeKDST> {
	TypeKDST::parse(input)
}
pub fn root_bcd(input: &mut &Bytes, n: usize) -> MBResult<i64> {
	parse_bcd(n).parse_next(input)
}
pub fn root_invalid_bcd(input: &mut &Bytes, n: usize) -> MBResult<String> {
	parse_invalid_bcd(n).parse_next(input)
}
pub fn root_signed(input: &mut &Bytes, n: usize) -> MBResult<i64> {
	parse_binary_signed(n).parse_next(input)
}
pub fn root_unsigned(input: &mut &Bytes, n: usize) -> MBResult<u64> {
	parse_binary_unsigned(n).parse_next(input)
}
pub fn root_binary(input: &mut &Bytes, unsigned: bool, n: usize) -> MBResult<DataType> {
	parse_binary(unsigned, n).parse_next(input)
}
pub fn root_real(input: &mut &Bytes) -> MBResult<f32> {
	parse_real(input)
}
pub fn root_ascii(input: &mut &Bytes) -> MBResult<String> {
	parse_length_prefix_ascii(input)
}
pub fn root_latin1(input: &mut &Bytes, n: usize) -> MBResult<String> {
	parse_latin1(n).parse_next(input)
}
pub fn root_unpack_manufacturer(code: u16) -> Result<String, std::string::FromUtf8Error> {
	unpack_manufacturer_code(code)
}
pub fn root_device_name(raw_id: &[u8], manufacturer: u16, version: u8, device_type: DeviceType) -> Option<&'static str> {
	device_name(raw_id, manufacturer, version, device_type)
}
