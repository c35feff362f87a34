//! C33: packets survive the conversion to the gRPC message form and back.
use flowsdk::mqtt_serde::control_packet::MqttPacket as M;
use kit::*;
use mqtt_grpc_proxy::mqtt_unified_pb::{mqtt_stream_message::Payload, MessageDirection, MqttStreamMessage};
use mqtt_grpc_proxy::*;
use prost::Message;
use refmqtt::*;

fn some_gen(r: &mut Rng) -> Gen {
    match r.below(8) {
        0 => Gen { small: 3, big_every: 1_000_000 },
        1 => Gen { small: 40, big_every: 8 },
        2 => Gen { small: 200, big_every: 60 },
        _ => Gen { small: 12, big_every: 300 },
    }
}

/// The same by the per-packet conversions, which the two proxies and their users may call directly.
fn direct(m: &M) -> Option<M> {
    macro_rules! back {
        ($v:ident, $p:expr, $pb:ty, $t:ty) => {{
            let x: $pb = $p.clone().into();
            let y = <$pb>::decode(x.encode_to_vec().as_slice()).ok()?;
            let z: $t = y.into();
            M::$v(z)
        }};
    }
    use flowsdk::mqtt_serde::{mqttv3 as v3, mqttv5 as v5};
    Some(match m {
        M::Connect5(p) => back!(Connect5, p, mqttv5pb::Connect, v5::connect::MqttConnect),
        M::ConnAck5(p) => back!(ConnAck5, p, mqttv5pb::Connack, v5::connack::MqttConnAck),
        M::Publish5(p) => back!(Publish5, p, mqttv5pb::Publish, v5::publish::MqttPublish),
        M::PubAck5(p) => back!(PubAck5, p, mqttv5pb::Puback, v5::puback::MqttPubAck),
        M::PubRec5(p) => back!(PubRec5, p, mqttv5pb::Pubrec, v5::pubrec::MqttPubRec),
        M::PubRel5(p) => back!(PubRel5, p, mqttv5pb::Pubrel, v5::pubrel::MqttPubRel),
        M::PubComp5(p) => back!(PubComp5, p, mqttv5pb::Pubcomp, v5::pubcomp::MqttPubComp),
        M::Subscribe5(p) => back!(Subscribe5, p, mqttv5pb::Subscribe, v5::subscribe::MqttSubscribe),
        M::SubAck5(p) => back!(SubAck5, p, mqttv5pb::Suback, v5::suback::MqttSubAck),
        M::Unsubscribe5(p) => back!(Unsubscribe5, p, mqttv5pb::Unsubscribe, v5::unsubscribe::MqttUnsubscribe),
        M::UnsubAck5(p) => back!(UnsubAck5, p, mqttv5pb::Unsuback, v5::unsuback::MqttUnsubAck),
        M::Disconnect5(p) => back!(Disconnect5, p, mqttv5pb::Disconnect, v5::disconnect::MqttDisconnect),
        M::Auth(p) => back!(Auth, p, mqttv5pb::Auth, v5::auth::MqttAuth),
        M::Connect3(p) => back!(Connect3, p, mqttv3pb::Connect, v3::connect::MqttConnect),
        M::ConnAck3(p) => back!(ConnAck3, p, mqttv3pb::Connack, v3::connack::MqttConnAck),
        M::Publish3(p) => back!(Publish3, p, mqttv3pb::Publish, v3::publish::MqttPublish),
        M::PubAck3(p) => back!(PubAck3, p, mqttv3pb::Puback, v3::puback::MqttPubAck),
        M::PubRec3(p) => back!(PubRec3, p, mqttv3pb::Pubrec, v3::pubrec::MqttPubRec),
        M::PubRel3(p) => back!(PubRel3, p, mqttv3pb::Pubrel, v3::pubrel::MqttPubRel),
        M::PubComp3(p) => back!(PubComp3, p, mqttv3pb::Pubcomp, v3::pubcomp::MqttPubComp),
        M::Subscribe3(p) => back!(Subscribe3, p, mqttv3pb::Subscribe, v3::subscribe::MqttSubscribe),
        M::SubAck3(p) => back!(SubAck3, p, mqttv3pb::Suback, v3::suback::MqttSubAck),
        M::Unsubscribe3(p) => back!(Unsubscribe3, p, mqttv3pb::Unsubscribe, v3::unsubscribe::MqttUnsubscribe),
        M::UnsubAck3(p) => back!(UnsubAck3, p, mqttv3pb::Unsuback, v3::unsuback::MqttUnsubAck),
        M::Disconnect3(p) => back!(Disconnect3, p, mqttv3pb::Disconnect, v3::disconnect::MqttDisconnect),
        _ => return None,
    })
}

fn case(i: u64, r: &mut Rng, o: &mut Obs) -> Verdict {
    let v5 = r.bool();
    let ty = (i % if v5 { 15 } else { 14 }) as u8 + 1;
    let g = some_gen(r);
    let mut p = g.packet(r, v5, ty);
    if r.chance(1, 6) {
        // the empty and zero corners of every field
        if let Some(c) = &mut p.conn {
            if r.bool() {
                c.client_id.clear();
            }
            if c.username.is_some() && r.bool() {
                c.username = Some(String::new());
            }
            if c.password.is_some() && r.bool() {
                c.password = Some(vec![]);
            }
            if let Some(w) = &mut c.will {
                w.payload.clear();
            }
        }
        p.payload.clear();
        if r.bool() && !(ty == PUBLISH && p.topic.is_empty()) {
            p.props.clear();
        }
    }
    if ty == CONNECT && !v5 && r.chance(1, 6) {
        let c = p.conn.as_mut().unwrap();
        c.level = 3;
        c.name = "MQIsdp".into();
    }
    let want = encode(&p);
    let m = match () {
        // an MQTT 3.1 CONNECT only exists as bytes
        _ if p.conn.as_ref().is_some_and(|c| c.level == 3) => match M::from_bytes_with_version(&want, 3) {
            Ok(flowsdk::mqtt_serde::parser::ParseOk::Packet(m, _)) => m,
            // not supported by the codec: nothing to forward
            _ => {
                o.trivial();
                return Ok(());
            }
        },
        _ => conv::from_model(&p),
    };
    let seq = r.u64();
    let dir = if r.bool() { MessageDirection::ClientToBroker } else { MessageDirection::BrokerToClient };
    let Some(msg) = convert_mqtt_to_stream_message(&m, seq, dir) else {
        return fail("not-converted", format!("no stream message for {m:?}"));
    };
    ensure!(msg.sequence_id == seq && msg.direction == dir as i32, "envelope", "sequence {} direction {} for {seq} {dir:?}", msg.sequence_id, msg.direction);
    ensure!(
        matches!((&msg.payload, v5), (Some(Payload::MqttV3Packet(_)), false) | (Some(Payload::MqttV5Packet(_)), true)),
        "version",
        "{m:?} put into {:?}",
        msg.payload
    );
    let wire = msg.encode_to_vec();
    let back = match MqttStreamMessage::decode(wire.as_slice()) {
        Ok(b) => b,
        Err(e) => return fail("message-undecodable", format!("{e} for {m:?}")),
    };
    ensure!(back == msg, "message-differs", "message read back as {back:?} not {msg:?}");
    let Some(q) = convert_stream_message_to_mqtt_packet(back) else {
        return fail("not-converted-back", format!("no packet from {m:?}"));
    };
    o.count("converted");
    o.add("properties", p.props.len() as u64);
    if want.len() <= 2 {
        o.trivial()
    } else {
        o.case(hash64(&want))
    }
    if i < 3 {
        o.sample = Some(format!("{} {} -> {} message bytes", p.name(), hex(&want), wire.len()));
    }
    for (how, q) in [("stream message", Some(q)), ("direct conversion", direct(&m))] {
        let Some(q) = q else { continue };
        let b = match q.to_bytes() {
            Ok(b) => b,
            Err(e) => return fail("unencodable", format!("{how}: {q:?} from {m:?}: {e}")),
        };
        if p.conn.as_ref().is_some_and(|c| c.level == 3) {
            ensure!(b == want, "bytes-differ", "{how}: {} became {}", hex(&want), hex(&b));
            continue;
        }
        match decode(&b, v5) {
            Ok((d, n)) => ensure!(n == b.len() && d == p, "packet-differs", "{how}: {p:?} became {d:?}"),
            Err(e) => return fail("bytes-malformed", format!("{how}: {p:?} became {} ({e:?})", hex(&b))),
        }
        // as values: None and an empty list of CONNACK properties mean the same
        let mut a = m.clone();
        let mut c = q.clone();
        for x in [&mut a, &mut c] {
            if let M::ConnAck5(k) = x {
                k.properties.get_or_insert_with(Vec::new);
            }
        }
        ensure!(a == c, "value-differs", "{how}: {a:?} became {c:?}");
    }
    Ok(())
}

/// The other directions: control messages are not packets, empty messages convert to nothing.
fn control(r: &mut Rng) -> Verdict {
    let g = Gen::default();
    let c = mqtt_unified_pb::SessionControl { control_type: r.below(4) as i32, client_id: g.text(r) };
    for payload in [
        Some(Payload::SessionControl(c)),
        Some(Payload::MqttV3Packet(mqttv3pb::MqttPacket { packet: None })),
        Some(Payload::MqttV5Packet(mqttv5pb::MqttPacket { packet: None })),
        None,
    ] {
        let msg = MqttStreamMessage { sequence_id: r.u64(), direction: 0, payload };
        let q = convert_stream_message_to_mqtt_packet(msg.clone());
        ensure!(q.is_none(), "packet-from-nothing", "{msg:?} gave {q:?}");
    }
    Ok(())
}

pub fn c33() {
    let mut run = Run::new("C33", "a packet with fields beyond the fixed header, identified by its encoded bytes");
    run.need("converted", 20_000);
    run.need("properties", 5_000);
    run.assume("a CONNACK with no properties and one with an empty list of properties are the same packet");
    let n = run.scale(200_000, 4_000_000);
    let budget = run.scale(25, 500) as f64;
    run.cases("packets", n, budget, |i, r, o| {
        case(i, r, o)?;
        if i % 64 == 0 {
            control(r)?;
        }
        Ok(())
    });
    run.finish()
}
