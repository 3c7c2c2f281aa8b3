@fn structure::codes::SubscriptionReasonCode::MqttCode::from_byte
ensures match r { Ok(v) => tab_SubscriptionReasonCode($1) == Some(v), Err(_) => tab_SubscriptionReasonCode($1) is None }

@fn structure::codes::SubscriptionReasonCode::MqttCode::to_byte
ensures r == byte_SubscriptionReasonCode(*self)

@fn structure::codes::DisconnectCode::MqttCode::from_byte
ensures match r { Ok(v) => tab_DisconnectCode($1) == Some(v), Err(_) => tab_DisconnectCode($1) is None }

@fn structure::codes::DisconnectCode::MqttCode::to_byte
ensures r == byte_DisconnectCode(*self)

@fn structure::codes::UnsubackCode::MqttCode::from_byte
ensures match r { Ok(v) => tab_UnsubackCode($1) == Some(v), Err(_) => tab_UnsubackCode($1) is None }

@fn structure::codes::UnsubackCode::MqttCode::to_byte
ensures r == byte_UnsubackCode(*self)

@fn structure::codes::AuthCode::MqttCode::from_byte
ensures match r { Ok(v) => tab_AuthCode($1) == Some(v), Err(_) => tab_AuthCode($1) is None }

@fn structure::codes::AuthCode::MqttCode::to_byte
ensures r == byte_AuthCode(*self)

@fn structure::codes::PubcompPubrelCode::MqttCode::from_byte
ensures match r { Ok(v) => tab_PubcompPubrelCode($1) == Some(v), Err(_) => tab_PubcompPubrelCode($1) is None }

@fn structure::codes::PubcompPubrelCode::MqttCode::to_byte
ensures r == byte_PubcompPubrelCode(*self)

@fn structure::codes::PubackPubrecCode::MqttCode::from_byte
ensures match r { Ok(v) => tab_PubackPubrecCode($1) == Some(v), Err(_) => tab_PubackPubrecCode($1) is None }

@fn structure::codes::PubackPubrecCode::MqttCode::to_byte
ensures r == byte_PubackPubrecCode(*self)

@fn structure::common::Granted::from_byte
ensures match r { Ok(v) => tab_Granted($1) == Some(v), Err(_) => tab_Granted($1) is None }

@fn structure::common::Granted::to_byte
ensures r == byte_Granted(*self)

@fn structure::common::QoS::from_byte
ensures match r { Ok(v) => tab_QoS($1) == Some(v), Err(_) => tab_QoS($1) is None }

@fn structure::common::QoS::to_byte
ensures r == byte_QoS(*self)

@fn structure::common::PacketType::from_bits
ensures r == ptype($1 as int)

@fn structure::common::PacketType::to_bits
ensures r == ptnum($1) * 16

@fn structure::common::FixedHeader::from_byte
ensures match r { Ok(v) => hdr($1 as int) == Some(v), Err(_) => hdr($1 as int) is None }

@fn structure::common::FixedHeader::for_type
ensures r == (FixedHeader { cmd: $1, dup: false, qos: 0, retain: false })

@fn structure::common::FixedHeader::encode
ensures
    self.cmd != PacketType::Publish || self.qos <= 2 ==> r == first_byte(self.cmd, self.dup, self.qos, self.retain)

@fn structure::common::Protocol::from_source
ensures match r { Ok(v) => proto_of(sb($1@)) == Some(v), Err(_) => proto_of(sb($1@)) is None }
@body_start
proof { lemma_proto($1@); }
