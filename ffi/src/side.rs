//! One client, driven through one of three interfaces over one of three transports.
use crate::peer::*;
use flowsdk::mqtt_client::commands::*;
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent, QuicMqttEngine};
use flowsdk::mqtt_client::tls_engine::TlsMqttEngine;
use flowsdk::mqtt_client::MqttClientOptions;
use flowsdk_ffi::engine::ffi_types::*;
use flowsdk_ffi::engine::*;
use serde_json::{json, Value};
use std::ffi::{CStr, CString};
use std::os::raw::c_char;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Raw,
    Tls,
    Quic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Api {
    Native,
    Object,
    C,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub client_id: Option<String>,
    pub version: u8,
    /// the long form, where the interface has one
    pub long: bool,
    pub clean: bool,
    pub keep_alive: u16,
    pub username: Option<String>,
    pub password: Option<String>,
    pub base_ms: u64,
    pub max_ms: u64,
    pub attempts: u32,
    // TLS
    pub server_name: String,
    pub ca: Option<String>,
    pub cert: Option<(String, String)>,
    pub insecure: bool,
    pub alpn: Option<String>,
    pub tls_null: bool,
}

impl Opts {
    pub fn native(&self) -> MqttClientOptions {
        let mut b = MqttClientOptions::builder().client_id(self.client_id.clone().unwrap_or("mqtt_client".into())).mqtt_version(self.version);
        if self.long {
            b = b
                .clean_start(self.clean)
                .keep_alive(self.keep_alive)
                .reconnect_base_delay_ms(self.base_ms)
                .reconnect_max_delay_ms(self.max_ms)
                .max_reconnect_attempts(self.attempts);
            if let Some(u) = &self.username {
                b = b.username(u.clone());
            }
            if let Some(p) = &self.password {
                b = b.password(p.clone());
            }
        }
        b.build()
    }
    fn object(&self) -> MqttOptionsFFI {
        let d = MqttClientOptions::default();
        let l = self.long;
        MqttOptionsFFI {
            client_id: self.client_id.clone().unwrap_or("mqtt_client".into()),
            mqtt_version: self.version,
            clean_start: if l { self.clean } else { d.clean_start },
            keep_alive: if l { self.keep_alive } else { d.keep_alive },
            username: self.username.clone().filter(|_| l),
            password: self.password.clone().filter(|_| l),
            reconnect_base_delay_ms: if l { self.base_ms } else { d.reconnect_base_delay_ms },
            reconnect_max_delay_ms: if l { self.max_ms } else { d.reconnect_max_delay_ms },
            max_reconnect_attempts: if l { self.attempts } else { d.max_reconnect_attempts },
        }
    }
    fn tls_object(&self) -> MqttTlsOptionsFFI {
        MqttTlsOptionsFFI {
            ca_cert_file: self.ca.clone(),
            client_cert_file: self.cert.clone().map(|c| c.0),
            client_key_file: self.cert.clone().map(|c| c.1),
            insecure_skip_verify: self.insecure,
            alpn_protocols: self.alpn.clone().into_iter().collect(),
            enable_key_log: false,
        }
    }
    fn tls_native(&self) -> rustls::ClientConfig {
        let b = rustls::ClientConfig::builder_with_provider(provider()).with_safe_default_protocol_versions().unwrap();
        let mut roots = rustls::RootCertStore::empty();
        if let Some(f) = &self.ca {
            if let Ok(b) = std::fs::read(f) {
                for c in rustls_pemfile::certs(&mut &b[..]).flatten() {
                    let _ = roots.add(c);
                }
            }
        }
        let b = if self.insecure { b.dangerous().with_custom_certificate_verifier(Arc::new(Any)) } else { b.with_root_certificates(roots) };
        let mut c = match &self.cert {
            Some(_) => b.with_client_auth_cert(pem_certs("cl.pem"), pem_key("cl_key.pem")).unwrap(),
            None => b.with_no_client_auth(),
        };
        c.alpn_protocols = vec![self.alpn.clone().unwrap_or("mqtt".into()).into_bytes()];
        c
    }
}

#[derive(Debug)]
struct Any;
impl rustls::client::danger::ServerCertVerifier for Any {
    fn verify_server_cert(
        &self,
        _: &rustls::pki_types::CertificateDer<'_>,
        _: &[rustls::pki_types::CertificateDer<'_>],
        _: &rustls::pki_types::ServerName<'_>,
        _: &[u8],
        _: rustls::pki_types::UnixTime,
    ) -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> {
        Ok(rustls::client::danger::ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &rustls::pki_types::CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &rustls::pki_types::CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        provider().signature_verification_algorithms.supported_schemes()
    }
}

pub enum E {
    RawN(MqttEngine),
    RawO(MqttEngineFFI),
    RawC(*mut MqttEngineFFI),
    TlsN(TlsMqttEngine),
    TlsO(TlsMqttEngineFFI),
    TlsC(*mut TlsMqttEngineFFI),
    QuicN(QuicMqttEngine),
    QuicO(QuicMqttEngineFFI),
    QuicC(*mut QuicMqttEngineFFI),
}
use E::*;

pub fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

/// Takes a string returned through the C interface.
pub unsafe fn take_str(p: *mut c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().unwrap_or("<not UTF-8>").to_string();
    mqtt_engine_free_string(p);
    Some(s)
}

pub unsafe fn take_bytes(p: *mut u8, n: usize) -> Vec<u8> {
    if p.is_null() {
        return vec![];
    }
    let v = std::slice::from_raw_parts(p, n).to_vec();
    mqtt_engine_free_bytes(p, n);
    v
}

/// What the foreign side is to see of an event.
pub fn seen(e: &MqttEvent) -> Option<Value> {
    Some(match e {
        MqttEvent::Connected(r) => json!({"Connected": {"reason_code": r.reason_code, "session_present": r.session_present}}),
        MqttEvent::Disconnected(r) => json!({"Disconnected": {"reason_code": r}}),
        MqttEvent::MessageReceived(m) => json!({"MessageReceived": {"topic": m.topic_name, "payload": m.payload, "qos": m.qos, "retain": m.retain}}),
        MqttEvent::Published(r) => json!({"Published": {"packet_id": r.packet_id, "reason_code": r.reason_code, "qos": r.qos}}),
        MqttEvent::Subscribed(r) => json!({"Subscribed": {"packet_id": r.packet_id, "reason_codes": r.reason_codes}}),
        MqttEvent::Unsubscribed(r) => json!({"Unsubscribed": {"packet_id": r.packet_id, "reason_codes": r.reason_codes}}),
        MqttEvent::PingResponse(r) => json!({"PingResponse": {"success": r.success}}),
        MqttEvent::Error(e) => json!({"Error": {"message": format!("{e:?}")}}),
        MqttEvent::StreamClosed { stream_id, reason, by_peer } => json!({"StreamClosed": {"stream_id": stream_id, "reason": reason, "by_peer": by_peer}}),
        MqttEvent::StreamReset { stream_id, error_code } => json!({"StreamReset": {"stream_id": stream_id, "error_code": error_code}}),
        MqttEvent::StreamStopped { stream_id, error_code } => json!({"StreamStopped": {"stream_id": stream_id, "error_code": error_code}}),
        MqttEvent::ReconnectNeeded => json!("ReconnectNeeded"),
        MqttEvent::ReconnectScheduled { attempt, delay } => json!({"ReconnectScheduled": {"attempt": attempt, "delay_ms": delay.as_millis() as u64}}),
        _ => return None,
    })
}

fn objects(v: Vec<MqttEventFFI>) -> Vec<Value> {
    v.iter().map(|e| serde_json::to_value(e).unwrap()).collect()
}

/// The part of an event that the list getters of the C interface show.
pub fn listed(v: &Value) -> Value {
    if v == "ReconnectNeeded" {
        return json!([9]);
    }
    let (k, x) = v.as_object().unwrap().iter().next().unwrap();
    match k.as_str() {
        "Connected" => json!([1, x["reason_code"]]),
        "Disconnected" => json!([2]),
        "MessageReceived" => json!([3, x["topic"], x["payload"]]),
        "Published" => json!([4, x["packet_id"].as_i64().unwrap_or(0)]),
        "Subscribed" => json!([5, x["packet_id"]]),
        "Unsubscribed" => json!([6]),
        "PingResponse" => json!([7]),
        "Error" => json!([8, x["message"]]),
        "ReconnectScheduled" => json!([10]),
        "StreamClosed" => json!([11, x["stream_id"], x["reason"], x["by_peer"].as_bool().unwrap() as i32]),
        "StreamReset" => json!([12, x["stream_id"], x["error_code"]]),
        "StreamStopped" => json!([13, x["stream_id"], x["error_code"]]),
        _ => json!([k]),
    }
}

unsafe fn list(l: *mut MqttEventListFFI) -> Vec<Value> {
    let mut v = vec![];
    for i in 0..mqtt_event_list_len(l) {
        let tag = mqtt_event_list_get_tag(l, i);
        v.push(match tag {
            1 => json!([1, mqtt_event_list_get_connected_rc(l, i)]),
            3 => {
                let t = take_str(mqtt_event_list_get_message_topic(l, i));
                let mut n = 77;
                let p = mqtt_event_list_get_message_payload(l, i, &mut n);
                json!([3, t, take_bytes(p, n)])
            }
            4 => json!([4, mqtt_event_list_get_published_pid(l, i)]),
            5 => json!([5, mqtt_event_list_get_subscribed_pid(l, i)]),
            8 => json!([8, take_str(mqtt_event_list_get_error_message(l, i))]),
            11 => json!([11, mqtt_event_list_get_stream_id(l, i), take_str(mqtt_event_list_get_stream_close_reason(l, i)), mqtt_event_list_get_stream_closed_by_peer(l, i)]),
            12 | 13 => json!([tag, mqtt_event_list_get_stream_id(l, i), mqtt_event_list_get_stream_error_code(l, i)]),
            t => json!([t]),
        });
    }
    mqtt_event_list_free(l);
    v
}

pub struct Side {
    pub e: E,
    pub kind: Kind,
    pub o: Opts,
    pub start: Instant,
    pub tls: Option<Tls>,
    pub quic: Option<Quic>,
    /// plaintext at the broker
    pub rx: Vec<Vec<u8>>,
    pub rets: Vec<i64>,
    /// (whole event, or only what the list shows)
    pub evs: Vec<(Value, bool)>,
    /// events still to be taken (the native side hands some of them back at once)
    pub waiting: Vec<Value>,
    /// events handed back by the calls themselves
    pub back: Vec<Value>,
    pub conn_ok: bool,
}

impl Side {
    pub fn new(kind: Kind, api: Api, o: &Opts) -> Side {
        let start = Instant::now();
        let raw_c = || unsafe {
            let id = o.client_id.as_deref().map(cs);
            let idp = id.as_ref().map_or(std::ptr::null(), |s| s.as_ptr());
            if !o.long {
                return mqtt_engine_new(idp, o.version);
            }
            let (u, p) = (o.username.as_deref().map(cs), o.password.as_deref().map(cs));
            let c = MqttOptionsC {
                client_id: idp,
                mqtt_version: o.version,
                clean_start: o.clean,
                keep_alive: o.keep_alive,
                username: u.as_ref().map_or(std::ptr::null(), |s| s.as_ptr()),
                password: p.as_ref().map_or(std::ptr::null(), |s| s.as_ptr()),
                reconnect_base_delay_ms: o.base_ms,
                reconnect_max_delay_ms: o.max_ms,
                max_reconnect_attempts: o.attempts,
            };
            mqtt_engine_new_with_opts(&c)
        };
        let e = match (kind, api) {
            (Kind::Raw, Api::Native) => RawN(MqttEngine::new(o.native())),
            (Kind::Raw, Api::Object) if o.long => RawO(MqttEngineFFI::new_with_opts(o.object())),
            (Kind::Raw, Api::Object) => RawO(MqttEngineFFI::new(o.client_id.clone(), o.version)),
            (Kind::Raw, Api::C) => RawC(raw_c()),
            (Kind::Tls, Api::Native) => TlsN(TlsMqttEngine::new(o.native(), &o.server_name, Arc::new(o.tls_native())).unwrap()),
            (Kind::Tls, Api::Object) => TlsO(TlsMqttEngineFFI::new(o.object(), o.tls_object(), o.server_name.clone())),
            (Kind::Tls, Api::C) => unsafe {
                let id = o.client_id.as_deref().map(cs);
                let name = cs(&o.server_name);
                TlsC(o.with_tls_c(|t| mqtt_tls_engine_new(id.as_ref().map_or(std::ptr::null(), |s| s.as_ptr()), o.version, name.as_ptr(), t)))
            },
            (Kind::Quic, Api::Native) => QuicN(QuicMqttEngine::new(o.native()).unwrap()),
            (Kind::Quic, Api::Object) => QuicO(QuicMqttEngineFFI::new(o.object())),
            (Kind::Quic, Api::C) => unsafe {
                let id = o.client_id.as_deref().map(cs);
                QuicC(mqtt_quic_engine_new(id.as_ref().map_or(std::ptr::null(), |s| s.as_ptr()), o.version))
            },
        };
        Side {
            e,
            kind,
            o: o.clone(),
            start,
            tls: (kind == Kind::Tls).then(Tls::new),
            quic: (kind == Kind::Quic).then(Quic::new),
            rx: vec![vec![]],
            rets: vec![],
            evs: vec![],
            waiting: vec![],
            back: vec![],
            conn_ok: true,
        }
    }

    fn now_ms(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }

    pub fn connect(&mut self) {
        let (o, ms) = (self.o.clone(), self.now_ms());
        match &mut self.e {
            RawN(e) => e.connect(),
            RawO(e) => e.connect(),
            RawC(e) => unsafe { mqtt_engine_connect(*e) },
            TlsN(e) => e.connect(),
            TlsO(e) => e.connect(),
            TlsC(e) => unsafe { mqtt_tls_engine_connect(*e) },
            QuicN(e) => {
                self.conn_ok = e.connect(ADDR.parse().unwrap(), &o.server_name, o.tls_native(), self.start + Duration::from_millis(ms)).is_ok();
            }
            QuicO(e) => e.connect(ADDR.into(), o.server_name.clone(), o.tls_object(), ms),
            QuicC(e) => unsafe {
                let (a, n) = (cs(ADDR), cs(&o.server_name));
                self.conn_ok = o.with_tls_c(|t| mqtt_quic_engine_connect(*e, a.as_ptr(), n.as_ptr(), t)) == 0;
            },
        }
    }

    pub fn publish(&mut self, topic: &str, payload: &[u8], qos: u8, prio: Option<u8>) {
        let cmd = || {
            let mut b = PublishCommand::builder().topic(topic).payload(payload.to_vec()).qos(qos);
            if let Some(p) = prio {
                b = b.priority(p);
            }
            b.build().ok()
        };
        fn ret<E>(x: Result<Option<u16>, E>) -> i32 {
            x.map_or(-1, |p| p.map_or(0, |p| p as i32))
        }
        let (t, p) = (cs(topic), payload);
        let v = match &mut self.e {
            RawN(e) => cmd().map_or(-1, |c| ret(e.publish(c))),
            TlsN(e) => cmd().map_or(-1, |c| ret(e.publish(c))),
            QuicN(e) => cmd().map_or(-1, |c| ret(e.publish(c))),
            RawO(e) => e.publish(topic.into(), payload.to_vec(), qos, prio),
            TlsO(e) => e.publish(topic.into(), payload.to_vec(), qos),
            QuicO(e) => e.publish(topic.into(), payload.to_vec(), qos),
            RawC(e) => unsafe { mqtt_engine_publish(*e, t.as_ptr(), p.as_ptr(), p.len(), qos) },
            TlsC(e) => unsafe { mqtt_tls_engine_publish(*e, t.as_ptr(), p.as_ptr(), p.len(), qos) },
            QuicC(e) => unsafe { mqtt_quic_engine_publish(*e, t.as_ptr(), p.as_ptr(), p.len(), qos) },
        };
        self.rets.push(v as i64);
    }

    pub fn subscribe(&mut self, f: &str, qos: u8, un: bool) {
        let t = cs(f);
        fn ret<E>(x: Result<u16, E>) -> i32 {
            x.map_or(-1, |p| p as i32)
        }
        let sub = || SubscribeCommand::single(f.to_string(), qos);
        let uns = || UnsubscribeCommand::from_topics(vec![f.to_string()]);
        let v = match &mut self.e {
            RawN(e) if un => ret(e.unsubscribe(uns())),
            TlsN(e) if un => ret(e.unsubscribe(uns())),
            QuicN(e) if un => ret(e.unsubscribe(uns())),
            RawN(e) => ret(e.subscribe(sub())),
            TlsN(e) => ret(e.subscribe(sub())),
            QuicN(e) => ret(e.subscribe(sub())),
            RawO(e) if un => e.unsubscribe(f.into()),
            TlsO(e) if un => e.unsubscribe(f.into()),
            QuicO(e) if un => e.unsubscribe(f.into()),
            RawO(e) => e.subscribe(f.into(), qos),
            TlsO(e) => e.subscribe(f.into(), qos),
            QuicO(e) => e.subscribe(f.into(), qos),
            RawC(e) if un => unsafe { mqtt_engine_unsubscribe(*e, t.as_ptr()) },
            TlsC(e) if un => unsafe { mqtt_tls_engine_unsubscribe(*e, t.as_ptr()) },
            QuicC(e) if un => unsafe { mqtt_quic_engine_unsubscribe(*e, t.as_ptr()) },
            RawC(e) => unsafe { mqtt_engine_subscribe(*e, t.as_ptr(), qos) },
            TlsC(e) => unsafe { mqtt_tls_engine_subscribe(*e, t.as_ptr(), qos) },
            QuicC(e) => unsafe { mqtt_quic_engine_subscribe(*e, t.as_ptr(), qos) },
        };
        self.rets.push(v as i64);
    }

    pub fn disconnect(&mut self) {
        match &mut self.e {
            RawN(e) => e.disconnect(),
            TlsN(e) => e.disconnect(),
            QuicN(e) => e.disconnect(),
            RawO(e) => e.disconnect(),
            TlsO(e) => e.disconnect(),
            QuicO(e) => e.disconnect(),
            RawC(e) => unsafe { mqtt_engine_disconnect(*e) },
            TlsC(e) => unsafe { mqtt_tls_engine_disconnect(*e) },
            QuicC(e) => unsafe { mqtt_quic_engine_disconnect(*e) },
        }
    }

    pub fn lost(&mut self) {
        match &mut self.e {
            RawN(e) => e.handle_connection_lost(),
            RawO(e) => e.handle_connection_lost(),
            RawC(e) => unsafe { mqtt_engine_handle_connection_lost(*e) },
            _ => {}
        }
    }

    pub fn auth(&mut self, rc: u8) {
        match &mut self.e {
            RawN(e) => e.auth(rc, vec![]),
            RawO(e) => e.auth(rc),
            RawC(e) => unsafe { mqtt_engine_auth(*e, rc) },
            _ => {}
        }
    }

    pub fn is_connected(&self) -> bool {
        match &self.e {
            RawN(e) => e.is_connected(),
            TlsN(e) => e.is_connected(),
            QuicN(e) => e.is_connected(),
            RawO(e) => e.is_connected(),
            TlsO(e) => e.is_connected(),
            QuicO(e) => e.is_connected(),
            RawC(e) => unsafe { mqtt_engine_is_connected(*e) == 1 },
            TlsC(e) => unsafe { mqtt_tls_engine_is_connected(*e) == 1 },
            QuicC(e) => unsafe { mqtt_quic_engine_is_connected(*e) == 1 },
        }
    }

    pub fn version(&self) -> Option<u8> {
        match &self.e {
            RawN(e) => Some(e.mqtt_version()),
            RawO(e) => Some(e.get_version()),
            RawC(e) => Some(unsafe { mqtt_engine_get_version(*e) }),
            _ => None,
        }
    }

    /// When the next tick is due, in ms from the start; None where the interface does not say.
    pub fn next_tick(&self) -> Option<i64> {
        match &self.e {
            RawN(e) => Some(e.next_tick_at().map_or(-1, |t| t.saturating_duration_since(self.start).as_millis() as i64)),
            RawO(e) => Some(e.next_tick_ms()),
            RawC(e) => Some(unsafe { mqtt_engine_next_tick_ms(*e) }),
            _ => None,
        }
    }

    pub fn tick(&mut self, ms: u64) {
        let ms = if self.kind == Kind::Quic { self.now_ms() } else { ms };
        let at = self.start + Duration::from_millis(ms);
        let native = |v: Vec<MqttEvent>| v.iter().filter_map(seen).collect::<Vec<_>>();
        match &mut self.e {
            RawN(e) => {
                let v = native(e.handle_tick(at));
                self.back.extend(v.clone());
                self.waiting.extend(v);
            }
            TlsN(e) => {
                let v = native(e.handle_tick(at));
                self.back.extend(v.clone());
                self.waiting.extend(v);
            }
            QuicN(e) => {
                let v = native(e.handle_tick(at));
                self.back.extend(v.clone());
                self.waiting.extend(v);
            }
            RawO(e) => self.back.extend(objects(e.handle_tick(ms))),
            TlsO(e) => self.back.extend(objects(e.handle_tick(ms))),
            QuicO(e) => self.back.extend(objects(e.handle_tick(ms))),
            RawC(e) => unsafe { mqtt_engine_handle_tick(*e, ms) },
            TlsC(e) => unsafe { mqtt_tls_engine_handle_tick(*e, ms) },
            QuicC(e) => unsafe { mqtt_quic_engine_handle_tick(*e, ms) },
        }
        self.pump();
    }

    /// Bytes from the broker.
    pub fn incoming(&mut self, at: usize, b: &[u8]) {
        match self.kind {
            Kind::Raw => match &mut self.e {
                RawN(e) => {
                    let v: Vec<_> = e.handle_incoming(b).iter().filter_map(seen).collect();
                    self.back.extend(v.clone());
                    self.waiting.extend(v);
                }
                RawO(e) => self.back.extend(objects(e.handle_incoming(b.to_vec()))),
                RawC(e) => unsafe { mqtt_engine_handle_incoming(*e, b.as_ptr(), b.len()) },
                _ => {}
            },
            Kind::Tls => self.tls.as_mut().unwrap().send(b),
            Kind::Quic => self.quic.as_mut().unwrap().send(at, b),
        }
        self.pump();
    }

    pub fn break_stream(&mut self, what: usize, at: usize) {
        let q = self.quic.as_mut().unwrap();
        match what {
            0 => q.reset(at, 7),
            1 => q.stop(at, 9),
            2 => q.finish(at),
            _ => {
                q.reset(at, 3);
                q.stop(at, 4);
            }
        }
        q.drive(&mut self.rx);
        self.pump();
    }

    /// Takes events through one of the ways there are.
    pub fn take(&mut self, as_list: bool) {
        let mut v: Vec<Value> = match &mut self.e {
            RawN(e) => e.take_events().iter().filter_map(seen).collect(),
            TlsN(e) => e.take_events().iter().filter_map(seen).collect(),
            QuicN(e) => e.take_events().iter().filter_map(seen).collect(),
            RawO(e) => objects(e.take_events()),
            TlsO(e) => objects(e.take_events()),
            QuicO(e) => objects(e.take_events()),
            RawC(e) if as_list => unsafe { list(mqtt_engine_take_events_list(*e)) },
            TlsC(e) if as_list => unsafe { list(mqtt_tls_engine_take_events_list(*e)) },
            QuicC(e) if as_list => unsafe { list(mqtt_quic_engine_take_events_list(*e)) },
            RawC(e) => unsafe { parse(mqtt_engine_take_events(*e)) },
            TlsC(e) => unsafe { parse(mqtt_tls_engine_take_events(*e)) },
            QuicC(e) => unsafe { parse(mqtt_quic_engine_take_events(*e)) },
        };
        let part = as_list && matches!(self.e, RawC(_) | TlsC(_) | QuicC(_));
        let mut w = std::mem::take(&mut self.waiting);
        w.append(&mut v);
        self.evs.extend(w.into_iter().map(|x| (x, part)));
    }

    /// Moves what is to be moved until nothing moves any more.
    pub fn pump(&mut self) {
        for _ in 0..10_000 {
            let mut moved = false;
            match self.kind {
                Kind::Raw => {
                    let b = match &mut self.e {
                        RawN(e) => e.take_outgoing(),
                        RawO(e) => e.take_outgoing(),
                        RawC(e) => unsafe {
                            let mut n = 77usize;
                            let p = mqtt_engine_take_outgoing(*e, &mut n);
                            if p.is_null() {
                                assert_eq!(n, 0);
                            }
                            take_bytes(p, n)
                        },
                        _ => vec![],
                    };
                    self.rx[0].extend(b);
                }
                Kind::Tls => {
                    let b = match &mut self.e {
                        TlsN(e) => e.take_socket_data(),
                        TlsO(e) => e.take_socket_data(),
                        TlsC(e) => unsafe {
                            let mut n = 77usize;
                            let p = mqtt_tls_engine_take_socket_data(*e, &mut n);
                            take_bytes(p, n)
                        },
                        _ => vec![],
                    };
                    let t = self.tls.as_mut().unwrap();
                    moved |= !b.is_empty();
                    t.feed(&b, &mut self.rx[0]);
                    let b = t.out();
                    if !b.is_empty() {
                        moved = true;
                        match &mut self.e {
                            TlsN(e) => {
                                if let Err(x) = e.handle_socket_data(&b) {
                                    self.waiting.push(json!({"Error": {"message": format!("{x:?}")}}));
                                }
                            }
                            TlsO(e) => e.handle_socket_data(b),
                            TlsC(e) => unsafe { mqtt_tls_engine_handle_socket_data(*e, b.as_ptr(), b.len()) },
                            _ => {}
                        }
                    }
                }
                Kind::Quic => {
                    let ms = self.now_ms();
                    let at = self.start + Duration::from_millis(ms);
                    let ds: Vec<(String, Vec<u8>)> = match &mut self.e {
                        QuicN(e) => e.take_outgoing_datagrams().into_iter().map(|(a, d)| (a.to_string(), d)).collect(),
                        QuicO(e) => e.take_outgoing_datagrams().into_iter().map(|d| (d.addr, d.data)).collect(),
                        QuicC(e) => unsafe {
                            let mut n = 77usize;
                            let p = mqtt_quic_engine_take_outgoing_datagrams(*e, &mut n);
                            let mut v = vec![];
                            if !p.is_null() {
                                for d in std::slice::from_raw_parts(p, n) {
                                    v.push((CStr::from_ptr(d.addr).to_str().unwrap().to_string(), std::slice::from_raw_parts(d.data, d.data_len).to_vec()));
                                }
                                mqtt_quic_engine_free_datagrams(p, n);
                            } else {
                                assert_eq!(n, 0);
                            }
                            v
                        },
                        _ => vec![],
                    };
                    let q = self.quic.as_mut().unwrap();
                    moved |= !ds.is_empty();
                    for (a, d) in &ds {
                        if a != ADDR {
                            self.rets.push(-77);
                        }
                        q.feed(d);
                    }
                    q.drive(&mut self.rx);
                    for d in std::mem::take(&mut q.out) {
                        moved = true;
                        match &mut self.e {
                            QuicN(e) => e.handle_datagram(d, ADDR.parse().unwrap(), at),
                            QuicO(e) => e.handle_datagram(d, ADDR.into(), ms),
                            QuicC(e) => unsafe {
                                let a = cs(ADDR);
                                mqtt_quic_engine_handle_datagram(*e, d.as_ptr(), d.len(), a.as_ptr())
                            },
                            _ => {}
                        }
                    }
                    if moved {
                        let native = |v: Vec<MqttEvent>| v.iter().filter_map(seen).collect::<Vec<_>>();
                        match &mut self.e {
                            QuicN(e) => {
                                let v = native(e.handle_tick(at));
                                self.back.extend(v.clone());
                                self.waiting.extend(v);
                            }
                            QuicO(e) => self.back.extend(objects(e.handle_tick(ms))),
                            QuicC(e) => unsafe { mqtt_quic_engine_handle_tick(*e, ms) },
                            _ => {}
                        }
                    }
                }
            }
            if !moved {
                break;
            }
        }
    }

    pub fn seen(&self) -> Seen {
        match self.kind {
            Kind::Raw => Seen::default(),
            Kind::Tls => self.tls.as_ref().unwrap().seen(),
            Kind::Quic => self.quic.as_ref().unwrap().seen.clone(),
        }
    }
}

unsafe fn parse(p: *mut c_char) -> Vec<Value> {
    let s = take_str(p).unwrap_or("null".into());
    match serde_json::from_str(&s) {
        Ok(Value::Array(v)) => v,
        _ => vec![json!({"Unreadable": s})],
    }
}

impl Drop for Side {
    fn drop(&mut self) {
        unsafe {
            match &self.e {
                RawC(e) => mqtt_engine_free(*e),
                TlsC(e) => mqtt_tls_engine_free(*e),
                QuicC(e) => mqtt_quic_engine_free(*e),
                _ => {}
            }
        }
    }
}

impl Opts {
    pub fn with_tls_c<T>(&self, f: impl FnOnce(*const MqttTlsOptionsC) -> T) -> T {
        if self.tls_null {
            return f(std::ptr::null());
        }
        let s = |x: Option<&String>| x.map(|s| cs(s));
        let p = |x: &Option<CString>| x.as_ref().map_or(std::ptr::null(), |s| s.as_ptr());
        let (ca, ce, ke, al) = (s(self.ca.as_ref()), s(self.cert.as_ref().map(|c| &c.0)), s(self.cert.as_ref().map(|c| &c.1)), s(self.alpn.as_ref()));
        let t = MqttTlsOptionsC {
            ca_cert_file: p(&ca),
            client_cert_file: p(&ce),
            client_key_file: p(&ke),
            alpn: p(&al),
            insecure_skip_verify: self.insecure as u8,
            enable_key_log: 0,
        };
        f(&t)
    }
}
