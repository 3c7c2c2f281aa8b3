@item structure::common::PacketType
@derive
Debug PartialEq Clone Copy
@item byte_reader::ByteReader
@attr
#[verifier::reject_recursive_types(R)]
@item packet::PacketDecoder
@attr
#[verifier::reject_recursive_types(R)]
@mod structure::common
@broadcast
bits
@mod structure::codes
@broadcast
bits
@mod byte_reader
@broadcast
bits
@mod connect
@broadcast
bits
@mod subscribe
@broadcast
bits
@mod publish
@broadcast
bits
@mod confirmation
@broadcast
bits
@mod connack
@broadcast
bits
@mod structure
@broadcast
bits
