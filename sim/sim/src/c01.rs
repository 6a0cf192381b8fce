//! C01: every delivered authorised request is accepted by an RFC 5849 server.

use std::collections::{HashMap, HashSet};

use simrt::{advance, below, chance, check, eval, ev, node as cur_node, probe, rt, set_node, state, sut, violation, wall_secs};

use crate::gen;
use crate::op::{self, Op, Out, Parsed};
use crate::world::{self, Net, S};
use oauth::Credentials;

/// What travels over the simulated network.
#[derive(Clone)]
pub struct Msg {
    /// The authorised output: a header value, a form body or the query part.
    pub text: String,
    /// With a header: how the request's own parameters travel, and their encoding by the library.
    pub body: Option<String>,
}

/// The request parameters of a header-authorised request, encoded by the library.
pub fn body(o: &Op, req: &op::Req) -> Result<String, simrt::Panicked> {
    match o.wrap {
        0 => sut(|| oauth::to_form(req)),
        1 => {
            let r = sut(|| oauth::to_query(o.uri.clone(), req))?;
            let q = match r.strip_prefix(&*o.uri) {
                Some(q) => q,
                None => violation("uri-lost", format!("to_query does not start with the URI {:?}: {:?}", o.uri, r)),
            };
            if q.is_empty() {
                return Ok(String::new());
            }
            match q.strip_prefix('?') {
                Some(q) => Ok(q.to_string()),
                None => violation("uri-lost", format!("to_query separates the query by something else than `?`: {:?}", r)),
            }
        }
        2 => sut(|| {
            use oauth::Request;
            req.serialize(oauth::serializer::Urlencoder::form_with_buf(String::new()))
        }),
        _ => sut(|| {
            use oauth::Request;
            req.serialize(oauth::serializer::Urlencoder::form())
        }),
    }
}

pub fn send(o: &Op) -> Msg {
    let r: Result<Msg, simrt::Panicked> = (|| {
        let req = sut(|| o.request())?;
        let text = o.exec_with(&req)?.text;
        let body = if o.out() == Out::Header { Some(body(o, &req)?) } else { None };
        Ok(Msg { text, body })
    })();
    match r {
        Ok(m) => m,
        Err(p) => violation("panic", format!("authorizing {} panicked: {} at {}", o.brief(), p.msg, p.loc)),
    }
}

/// The server.
pub fn receive(o: &Op, m: &Msg) -> Parsed {
    eval();
    if let Some(ref b) = m.body {
        let mut got = match model::parse_form(b) {
            Ok(g) => g,
            Err(e) => violation("malformed-body", format!("{} in {:?} for {}", e, b, o.brief())),
        };
        let mut want: Vec<(String, String)> = o.params.iter().map(|p| (p.k.clone(), p.v.clone())).collect();
        got.sort();
        want.sort();
        check!(got == want, "body-differs", "the body {:?} decodes to {:?}, the caller passed {:?}: {}", b, got, want, o.brief());
    }
    match o.verify(&m.text) {
        Ok(p) => p,
        Err(e) => violation("rejected", format!("{} -- request: {}", e, o.brief())),
    }
}

#[derive(Clone)]
enum Ev {
    Start(usize),
    Request { op: usize, attempt: u32, msg: Msg },
    Reply { op: usize },
    Timeout { op: usize, attempt: u32 },
}

pub fn net() {
    world::swarm();
    let epoch = 1_000_000_000 + below(2_000_000_000) as i64;
    let server = world::node(epoch, 0);
    let nclients = 1 + below(3);
    let clients: Vec<usize> = (0..nclients).map(|_| world::node(epoch, 100)).collect();
    let nops = 1 + below(6);
    let ops: Vec<(usize, Op)> = (0..nops)
        .map(|_| {
            let c = below(nclients);
            let mut o = op::gen_op(op::CFG);
            op::lengthen(&mut o);
            o.probe();
            state(o.shape());
            ev(|| format!("workload: client {}: {}", c, o.brief()));
            (c, o)
        })
        .collect();
    let mut net: Net<Ev> = Net::swarm(nclients);
    let mut accepted = vec![0u32; nops];
    let mut acked = vec![false; nops];
    let mut attempts = vec![0u32; nops];
    let mut seen: HashMap<(String, Option<String>, u64, String), (usize, u32)> = HashMap::new();
    for i in 0..nops {
        net.timer(below(10) as u64 * S, Ev::Start(i));
    }
    let deadline = net.heal_at + 120 * S;
    while let Some(e) = net.next() {
        match e {
            Ev::Start(i) => {
                if acked[i] {
                    continue;
                }
                let (c, ref o) = ops[i];
                set_node(clients[c]);
                let attempt = attempts[i];
                attempts[i] += 1;
                if rt().now > deadline {
                    violation("no-progress", format!("not accepted long after the network healed: {}", o.brief()));
                }
                let msg = send(o);
                ev(|| format!("client {} sends op {} attempt {}: {}", c, i, attempt, msg.text));
                if attempt > 0 {
                    probe("client.retries");
                }
                net.send(c, Ev::Request { op: i, attempt, msg });
                net.timer(5 * S, Ev::Timeout { op: i, attempt });
            }
            Ev::Timeout { op, attempt } => {
                if !acked[op] && attempts[op] == attempt + 1 {
                    net.timer(below(3) as u64 * S, Ev::Start(op));
                }
            }
            Ev::Request { op: i, attempt, msg } => {
                let (c, ref o) = ops[i];
                set_node(server);
                probe("server.delivered");
                let p = receive(o, &msg);
                if o.ts.is_none() {
                    let d = wall_secs(cur_node()) - p.ts as i64;
                    check!(d.abs() <= 300, "stale", "timestamp {} is {} s off the server's clock: {}", p.ts, d, o.brief());
                }
                if o.nonce.is_none() {
                    let k = (o.ck.clone(), o.tok.as_ref().map(|t| t.0.clone()), p.ts, p.nonce.clone());
                    match seen.get(&k) {
                        Some(&(i2, a2)) => {
                            check!(
                                (i2, a2) == (i, attempt), "taken-for-a-replay",
                                "a fresh message has the nonce and timestamp {:?} {:?} of an earlier one", p.nonce, p.ts
                            );
                            probe("server.replays_dropped");
                        }
                        None => {
                            seen.insert(k, (i, attempt));
                            accepted[i] += 1;
                        }
                    }
                } else {
                    accepted[i] += 1;
                }
                ev(|| format!("server accepts op {} attempt {}", i, attempt));
                net.send(c, Ev::Reply { op: i });
            }
            Ev::Reply { op } => {
                acked[op] = true;
            }
        }
    }
    for (i, (_, o)) in ops.iter().enumerate() {
        check!(acked[i] && accepted[i] > 0, "no-progress", "never accepted: {}", o.brief());
    }
}

// ------------------------------------------------------------------------------- the OAuth dance

#[derive(Clone)]
enum Dance {
    Go,
    Request { step: u8, attempt: u32, op: Op, msg: Msg },
    Response { step: u8, body: String },
    Timeout { step: u8, attempt: u32 },
}

/// RFC 5849 section 2: temporary credentials, authorization, token credentials, resource. The
/// client keeps the server's responses as `Credentials`, and may crash at any time, after which only
/// what it stored is left.
pub fn dance() {
    world::swarm();
    let epoch = 1_000_000_000 + below(2_000_000_000) as i64;
    let server = world::node(epoch, 0);
    let client = world::node(epoch, 100);
    let template = op::gen_op(op::CFG);
    let (ck, cs) = (template.ck.clone(), template.cs.clone());
    let callback = if chance(60) { "oob".to_string() } else { gen::text() };
    // What the server issues.
    let temp = (gen::text(), gen::secret());
    let tok = (gen::text(), gen::secret());
    let verifier = gen::text();
    let json = chance(64);
    let crash_p = simrt::pickc(&[0u32, 0, 40]);
    let steps: Vec<Op> = (0..3)
        .map(|s| {
            let mut o = op::gen_op(op::CFG);
            while op::entry_is_free(o.entry) && s < 2 {
                o.entry = below(40);
            }
            if let Some(m) = op::ENTRIES[o.entry].2 {
                o.method = m.into();
            }
            o.sm = template.sm;
            o.key = template.key;
            o.ck = ck.clone();
            o.cs = cs.clone();
            o.cb = None;
            o.ver = None;
            o
        })
        .collect();
    ev(|| format!("dance: {:?} temp={:?} tok={:?} verifier={:?} callback={:?}", template.sm, temp, tok, verifier, callback));

    let mut net: Net<Dance> = Net::swarm(1);
    // The client's durable state: the responses, as they were received.
    let mut stored: Vec<String> = Vec::new();
    let mut attempt = 0u32;
    let mut consumed: HashSet<u8> = HashSet::new();
    let deadline = net.heal_at + 120 * S;
    net.timer(0, Dance::Go);
    let respond = |c: &(String, String), extra: &str| {
        if json {
            let mut m = serde_json::Map::new();
            m.insert("oauth_token".into(), c.0.clone().into());
            m.insert("oauth_token_secret".into(), c.1.clone().into());
            m.insert(extra.to_string(), "true".into());
            serde_json::Value::Object(m).to_string()
        } else {
            format!("{}=true&oauth_token={}&oauth_token_secret={}", extra, model::pct(c.0.as_bytes()), model::pct(c.1.as_bytes()))
        }
    };
    let parse = |s: &str| -> Credentials {
        let r = sut(|| if json { serde_json::from_str(s).map_err(|e| e.to_string()) } else { serde_urlencoded::from_str(s).map_err(|e| e.to_string()) });
        match r {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => violation("credentials-refused", format!("{} in the response {:?}", e, s)),
            Err(p) => violation("panic", format!("parsing credentials panicked: {}", p.msg)),
        }
    };
    let mut done = false;
    while let Some(e) = net.next() {
        if done {
            break;
        }
        match e {
            Dance::Go => {
                set_node(client);
                let step = stored.len() as u8;
                if rt().now > deadline {
                    violation("no-progress", format!("stuck at step {} long after the network healed", step));
                }
                let mut o = steps[step as usize].clone();
                match step {
                    0 => {
                        o.tok = None;
                        o.cb = Some(callback.clone());
                    }
                    1 => {
                        let c = parse(&stored[0]);
                        o.tok = Some((c.identifier().into(), c.secret().into()));
                        o.ver = Some(verifier.clone());
                    }
                    _ => {
                        let c = parse(&stored[1]);
                        o.tok = Some((c.identifier().into(), c.secret().into()));
                    }
                }
                let msg = send(&o);
                ev(|| format!("client: step {} attempt {}: {}", step, attempt, msg.text));
                net.send(0, Dance::Request { step, attempt, op: o, msg });
                net.timer(5 * S, Dance::Timeout { step, attempt });
                attempt += 1;
            }
            Dance::Timeout { step, attempt: a } => {
                if stored.len() as u8 == step && attempt == a + 1 {
                    if simrt::fault_chance(crash_p) && rt().now < net.heal_at {
                        // Crash: back to the last durable state.
                        probe("fault.client_crash");
                        attempt += 1;
                    }
                    net.timer(S, Dance::Go);
                }
            }
            Dance::Request { step, attempt: a, op: mut o, msg } => {
                set_node(server);
                probe("server.delivered");
                // The server knows these by itself.
                o.tok = match step {
                    0 => None,
                    1 => Some(temp.clone()),
                    _ => Some(tok.clone()),
                };
                receive(&o, &msg);
                if !consumed.insert(step) {
                    probe("server.repeated_step");
                }
                ev(|| format!("server accepts step {} attempt {}", step, a));
                let body = match step {
                    0 => respond(&temp, "oauth_callback_confirmed"),
                    1 => respond(&tok, "x"),
                    _ => "ok".into(),
                };
                net.send(0, Dance::Response { step, body });
            }
            Dance::Response { step, body } => {
                if stored.len() as u8 == step {
                    if step == 2 {
                        done = true;
                        continue;
                    }
                    stored.push(body);
                    attempt += 1;
                    advance(below(3) as u64 * S);
                    net.timer(0, Dance::Go);
                }
            }
        }
    }
    check!(done, "no-progress", "the flow did not finish after the network healed");
}
