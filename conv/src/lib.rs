//! Field-by-field translation between the library's packet values and the reference model.
use flowsdk::mqtt_serde::control_packet::MqttPacket as M;
use flowsdk::mqtt_serde::mqttv3 as v3;
use flowsdk::mqtt_serde::mqttv5 as v5;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property as Q;
use refmqtt::*;

pub fn prop_to_model(q: &Q) -> P {
    match q {
        Q::PayloadFormatIndicator(v) => P::Byte(0x01, *v),
        Q::MessageExpiryInterval(v) => P::U32(0x02, *v),
        Q::ContentType(v) => P::Str(0x03, v.clone()),
        Q::ResponseTopic(v) => P::Str(0x08, v.clone()),
        Q::CorrelationData(v) => P::Bin(0x09, v.clone()),
        Q::SubscriptionIdentifier(v) => P::Vbi(0x0b, *v),
        Q::SessionExpiryInterval(v) => P::U32(0x11, *v),
        Q::AssignedClientIdentifier(v) => P::Str(0x12, v.clone()),
        Q::ServerKeepAlive(v) => P::U16(0x13, *v),
        Q::AuthenticationMethod(v) => P::Str(0x15, v.clone()),
        Q::AuthenticationData(v) => P::Bin(0x16, v.clone()),
        Q::RequestProblemInformation(v) => P::Byte(0x17, *v),
        Q::WillDelayInterval(v) => P::U32(0x18, *v),
        Q::RequestResponseInformation(v) => P::Byte(0x19, *v),
        Q::ResponseInformation(v) => P::Str(0x1a, v.clone()),
        Q::ServerReference(v) => P::Str(0x1c, v.clone()),
        Q::ReasonString(v) => P::Str(0x1f, v.clone()),
        Q::ReceiveMaximum(v) => P::U16(0x21, *v),
        Q::TopicAliasMaximum(v) => P::U16(0x22, *v),
        Q::TopicAlias(v) => P::U16(0x23, *v),
        Q::MaximumQoS(v) => P::Byte(0x24, *v),
        Q::RetainAvailable(v) => P::Byte(0x25, *v),
        Q::UserProperty(k, v) => P::Pair(k.clone(), v.clone()),
        Q::MaximumPacketSize(v) => P::U32(0x27, *v),
        Q::WildcardSubscriptionAvailable(v) => P::Byte(0x28, *v),
        Q::SubscriptionIdentifierAvailable(v) => P::Byte(0x29, *v),
        Q::SharedSubscriptionAvailable(v) => P::Byte(0x2a, *v),
    }
}

pub fn prop_from_model(p: &P) -> Q {
    match p {
        P::Byte(0x01, v) => Q::PayloadFormatIndicator(*v),
        P::U32(0x02, v) => Q::MessageExpiryInterval(*v),
        P::Str(0x03, v) => Q::ContentType(v.clone()),
        P::Str(0x08, v) => Q::ResponseTopic(v.clone()),
        P::Bin(0x09, v) => Q::CorrelationData(v.clone()),
        P::Vbi(0x0b, v) => Q::SubscriptionIdentifier(*v),
        P::U32(0x11, v) => Q::SessionExpiryInterval(*v),
        P::Str(0x12, v) => Q::AssignedClientIdentifier(v.clone()),
        P::U16(0x13, v) => Q::ServerKeepAlive(*v),
        P::Str(0x15, v) => Q::AuthenticationMethod(v.clone()),
        P::Bin(0x16, v) => Q::AuthenticationData(v.clone()),
        P::Byte(0x17, v) => Q::RequestProblemInformation(*v),
        P::U32(0x18, v) => Q::WillDelayInterval(*v),
        P::Byte(0x19, v) => Q::RequestResponseInformation(*v),
        P::Str(0x1a, v) => Q::ResponseInformation(v.clone()),
        P::Str(0x1c, v) => Q::ServerReference(v.clone()),
        P::Str(0x1f, v) => Q::ReasonString(v.clone()),
        P::U16(0x21, v) => Q::ReceiveMaximum(*v),
        P::U16(0x22, v) => Q::TopicAliasMaximum(*v),
        P::U16(0x23, v) => Q::TopicAlias(*v),
        P::Byte(0x24, v) => Q::MaximumQoS(*v),
        P::Byte(0x25, v) => Q::RetainAvailable(*v),
        P::Pair(k, v) => Q::UserProperty(k.clone(), v.clone()),
        P::U32(0x27, v) => Q::MaximumPacketSize(*v),
        P::Byte(0x28, v) => Q::WildcardSubscriptionAvailable(*v),
        P::Byte(0x29, v) => Q::SubscriptionIdentifierAvailable(*v),
        P::Byte(0x2a, v) => Q::SharedSubscriptionAvailable(*v),
        _ => panic!("no property {p:?}"),
    }
}

pub fn props_to_model(q: &[Q]) -> Vec<P> {
    q.iter().map(prop_to_model).collect()
}
pub fn props_from_model(p: &[P]) -> Vec<Q> {
    p.iter().map(prop_from_model).collect()
}

fn will5_to_model(w: &v5::will::Will) -> WillM {
    let w0 = &w.properties;
    let mut ps = Vec::new();
    if let Some(v) = w0.will_delay_interval {
        ps.push(P::U32(0x18, v));
    }
    if let Some(v) = w0.payload_format_indicator {
        ps.push(P::Byte(0x01, v));
    }
    if let Some(v) = w0.message_expiry_interval {
        ps.push(P::U32(0x02, v));
    }
    if let Some(v) = &w0.content_type {
        ps.push(P::Str(0x03, v.clone()));
    }
    if let Some(v) = &w0.response_topic {
        ps.push(P::Str(0x08, v.clone()));
    }
    if let Some(v) = &w0.correlation_data {
        ps.push(P::Bin(0x09, v.clone()));
    }
    ps.extend(props_to_model(&w0.user_properties));
    WillM {
        qos: w.will_qos,
        retain: w.will_retain,
        topic: w.will_topic.clone(),
        payload: w.will_message.clone(),
        props: ps,
    }
}

pub fn will5_from_model(m: &WillM) -> v5::will::Will {
    let mut w = v5::will::Will::new(m.topic.clone(), m.payload.clone(), m.qos, m.retain);
    for p in &m.props {
        let d = &mut w.properties;
        match p {
            P::U32(0x18, v) => d.will_delay_interval = Some(*v),
            P::Byte(0x01, v) => d.payload_format_indicator = Some(*v),
            P::U32(0x02, v) => d.message_expiry_interval = Some(*v),
            P::Str(0x03, v) => d.content_type = Some(v.clone()),
            P::Str(0x08, v) => d.response_topic = Some(v.clone()),
            P::Bin(0x09, v) => d.correlation_data = Some(v.clone()),
            P::Pair(..) => d.user_properties.push(prop_from_model(p)),
            _ => panic!("will property {p:?}"),
        }
    }
    w
}

pub fn to_model(m: &M) -> Pkt {
    let mut p = Pkt::new(true, 0);
    let id = |v5: bool, ty: u8, pid: u16, reason: u8, props: &[Q]| {
        let mut p = Pkt::ack(v5, ty, pid, reason);
        p.props = props_to_model(props);
        p
    };
    match m {
        M::Connect5(c) => {
            p.ty = CONNECT;
            p.props = props_to_model(&c.properties);
            p.conn = Some(Conn {
                name: c.protocol_name.clone(),
                level: c.protocol_version,
                clean: c.clean_start,
                keep_alive: c.keep_alive,
                client_id: c.client_id.clone(),
                will: c.will.as_ref().map(will5_to_model),
                username: c.username.clone(),
                password: c.password.clone(),
            });
        }
        M::Connect3(c) => {
            p.v5 = false;
            p.ty = CONNECT;
            p.conn = Some(Conn {
                name: c.protocol_name.clone(),
                level: c.protocol_version,
                clean: c.clean_session,
                keep_alive: c.keep_alive,
                client_id: c.client_id.clone(),
                will: c.will.as_ref().map(|w| WillM {
                    qos: w.qos,
                    retain: w.retain,
                    topic: w.topic.clone(),
                    payload: w.message.clone(),
                    props: vec![],
                }),
                username: c.username.clone(),
                password: c.password.clone(),
            });
        }
        M::ConnAck5(c) => {
            p.ty = CONNACK;
            p.session_present = c.session_present;
            p.reason = c.reason_code;
            p.props = props_to_model(c.properties.as_deref().unwrap_or(&[]));
        }
        M::ConnAck3(c) => {
            p.v5 = false;
            p.ty = CONNACK;
            p.session_present = c.session_present;
            p.reason = c.return_code;
        }
        M::Publish5(c) => {
            p.ty = PUBLISH;
            p.dup = c.dup;
            p.qos = c.qos;
            p.retain = c.retain;
            p.topic = c.topic_name.clone();
            p.pid = c.packet_id;
            p.payload = c.payload.clone();
            p.props = props_to_model(&c.properties);
        }
        M::Publish3(c) => {
            p.v5 = false;
            p.ty = PUBLISH;
            p.dup = c.dup;
            p.qos = c.qos;
            p.retain = c.retain;
            p.topic = c.topic_name.clone();
            p.pid = c.message_id;
            p.payload = c.payload.clone();
        }
        M::PubAck5(a) => return id(true, PUBACK, a.packet_id, a.reason_code, &a.properties),
        M::PubRec5(a) => return id(true, PUBREC, a.packet_id, a.reason_code, &a.properties),
        M::PubRel5(a) => return id(true, PUBREL, a.packet_id, a.reason_code, &a.properties),
        M::PubComp5(a) => return id(true, PUBCOMP, a.packet_id, a.reason_code, &a.properties),
        M::PubAck3(a) => return id(false, PUBACK, a.message_id, 0, &[]),
        M::PubRec3(a) => return id(false, PUBREC, a.message_id, 0, &[]),
        M::PubRel3(a) => return id(false, PUBREL, a.message_id, 0, &[]),
        M::PubComp3(a) => return id(false, PUBCOMP, a.message_id, 0, &[]),
        M::Subscribe5(s) => {
            p = id(true, SUBSCRIBE, s.packet_id, 0, &s.properties);
            for t in &s.subscriptions {
                p.filters.push((
                    t.topic_filter.clone(),
                    t.qos | (t.no_local as u8) << 2 | (t.retain_as_published as u8) << 3 | t.retain_handling << 4,
                ));
            }
        }
        M::Subscribe3(s) => {
            p = id(false, SUBSCRIBE, s.message_id, 0, &[]);
            for t in &s.subscriptions {
                p.filters.push((t.topic_filter.clone(), t.qos));
            }
        }
        M::Unsubscribe5(s) => {
            p = id(true, UNSUBSCRIBE, s.packet_id, 0, &s.properties);
            p.filters = s.topic_filters.iter().map(|t| (t.clone(), 0)).collect();
        }
        M::Unsubscribe3(s) => {
            p = id(false, UNSUBSCRIBE, s.message_id, 0, &[]);
            p.filters = s.topic_filters.iter().map(|t| (t.clone(), 0)).collect();
        }
        M::SubAck5(s) => {
            p = id(true, SUBACK, s.packet_id, 0, &s.properties);
            p.codes = s.reason_codes.clone();
        }
        M::SubAck3(s) => {
            p = id(false, SUBACK, s.message_id, 0, &[]);
            p.codes = s.return_codes.clone();
        }
        M::UnsubAck5(s) => {
            p = id(true, UNSUBACK, s.packet_id, 0, &s.properties);
            p.codes = s.reason_codes.clone();
        }
        M::UnsubAck3(s) => p = id(false, UNSUBACK, s.message_id, 0, &[]),
        M::PingReq5(_) => p.ty = PINGREQ,
        M::PingResp5(_) => p.ty = PINGRESP,
        M::PingReq3(_) => p = Pkt::new(false, PINGREQ),
        M::PingResp3(_) => p = Pkt::new(false, PINGRESP),
        M::Disconnect5(d) => {
            p.ty = DISCONNECT;
            p.reason = d.reason_code;
            p.props = props_to_model(&d.properties);
        }
        M::Disconnect3(_) => p = Pkt::new(false, DISCONNECT),
        M::Auth(d) => {
            p.ty = AUTH;
            p.reason = d.reason_code;
            p.props = props_to_model(&d.properties);
        }
    }
    p
}

pub fn from_model(p: &Pkt) -> M {
    let props = || props_from_model(&p.props);
    let pid = p.pid.unwrap_or(0);
    match (p.ty, p.v5) {
        (CONNECT, true) => {
            let c = p.conn.as_ref().unwrap();
            M::Connect5(v5::connect::MqttConnect {
                protocol_name: c.name.clone(),
                protocol_version: c.level,
                keep_alive: c.keep_alive,
                client_id: c.client_id.clone(),
                will: c.will.as_ref().map(will5_from_model),
                username: c.username.clone(),
                password: c.password.clone(),
                properties: props(),
                clean_start: c.clean,
            })
        }
        (CONNECT, false) => {
            let c = p.conn.as_ref().unwrap();
            M::Connect3(v3::connect::MqttConnect {
                protocol_name: c.name.clone(),
                protocol_version: c.level,
                keep_alive: c.keep_alive,
                client_id: c.client_id.clone(),
                will: c.will.as_ref().map(|w| v3::connect::Will {
                    retain: w.retain,
                    qos: w.qos,
                    topic: w.topic.clone(),
                    message: w.payload.clone(),
                }),
                username: c.username.clone(),
                password: c.password.clone(),
                clean_session: c.clean,
            })
        }
        (CONNACK, true) => M::ConnAck5(v5::connack::MqttConnAck {
            session_present: p.session_present,
            reason_code: p.reason,
            properties: if p.props.is_empty() { None } else { Some(props()) },
        }),
        (CONNACK, false) => {
            M::ConnAck3(v3::connack::MqttConnAck { session_present: p.session_present, return_code: p.reason })
        }
        (PUBLISH, true) => M::Publish5(v5::publish::MqttPublish {
            topic_name: p.topic.clone(),
            qos: p.qos,
            dup: p.dup,
            retain: p.retain,
            packet_id: p.pid,
            payload: p.payload.clone(),
            properties: props(),
        }),
        (PUBLISH, false) => M::Publish3(v3::publish::MqttPublish {
            topic_name: p.topic.clone(),
            qos: p.qos,
            dup: p.dup,
            retain: p.retain,
            message_id: p.pid,
            payload: p.payload.clone(),
        }),
        (PUBACK, true) => M::PubAck5(v5::puback::MqttPubAck::new(pid, p.reason, props())),
        (PUBREC, true) => M::PubRec5(v5::pubrec::MqttPubRec::new(pid, p.reason, props())),
        (PUBREL, true) => M::PubRel5(v5::pubrel::MqttPubRel::new(pid, p.reason, props())),
        (PUBCOMP, true) => M::PubComp5(v5::pubcomp::MqttPubComp::new(pid, p.reason, props())),
        (PUBACK, false) => M::PubAck3(v3::puback::MqttPubAck::new(pid)),
        (PUBREC, false) => M::PubRec3(v3::pubrec::MqttPubRec::new(pid)),
        (PUBREL, false) => M::PubRel3(v3::pubrel::MqttPubRel::new(pid)),
        (PUBCOMP, false) => M::PubComp3(v3::pubcomp::MqttPubComp::new(pid)),
        (SUBSCRIBE, true) => M::Subscribe5(v5::subscribe::MqttSubscribe {
            packet_id: pid,
            subscriptions: p
                .filters
                .iter()
                .map(|(t, o)| v5::subscribe::TopicSubscription {
                    topic_filter: t.clone(),
                    qos: o & 3,
                    no_local: o & 4 != 0,
                    retain_as_published: o & 8 != 0,
                    retain_handling: o >> 4,
                })
                .collect(),
            properties: props(),
        }),
        (SUBSCRIBE, false) => M::Subscribe3(v3::subscribe::MqttSubscribe {
            message_id: pid,
            subscriptions: p
                .filters
                .iter()
                .map(|(t, o)| v3::subscribe::SubscriptionTopic { topic_filter: t.clone(), qos: *o })
                .collect(),
        }),
        (UNSUBSCRIBE, true) => M::Unsubscribe5(v5::unsubscribe::MqttUnsubscribe {
            packet_id: pid,
            topic_filters: p.filters.iter().map(|x| x.0.clone()).collect(),
            properties: props(),
        }),
        (UNSUBSCRIBE, false) => M::Unsubscribe3(v3::unsubscribe::MqttUnsubscribe {
            message_id: pid,
            topic_filters: p.filters.iter().map(|x| x.0.clone()).collect(),
        }),
        (SUBACK, true) => M::SubAck5(v5::suback::MqttSubAck {
            packet_id: pid,
            reason_codes: p.codes.clone(),
            properties: props(),
        }),
        (SUBACK, false) => {
            M::SubAck3(v3::suback::MqttSubAck { message_id: pid, return_codes: p.codes.clone() })
        }
        (UNSUBACK, true) => M::UnsubAck5(v5::unsuback::MqttUnsubAck {
            packet_id: pid,
            reason_codes: p.codes.clone(),
            properties: props(),
        }),
        (UNSUBACK, false) => M::UnsubAck3(v3::unsuback::MqttUnsubAck::new(pid)),
        (PINGREQ, true) => M::PingReq5(v5::pingreq::MqttPingReq::new()),
        (PINGRESP, true) => M::PingResp5(v5::pingresp::MqttPingResp::new()),
        (PINGREQ, false) => M::PingReq3(v3::pingreq::MqttPingReq::new()),
        (PINGRESP, false) => M::PingResp3(v3::pingresp::MqttPingResp::new()),
        (DISCONNECT, true) => M::Disconnect5(v5::disconnect::MqttDisconnect::new(p.reason, props())),
        (DISCONNECT, false) => M::Disconnect3(v3::disconnect::MqttDisconnect::new()),
        (AUTH, true) => M::Auth(v5::auth::MqttAuth::new(p.reason, props())),
        _ => panic!("no packet {p:?}"),
    }
}
