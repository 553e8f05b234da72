//! W01: asking other nodes for web pages.
use crate::gossip::{drain, quiet, rt};
use crate::storage::rnd_u256;
use crate::{Case, Res};
use bytes::Bytes;
use flarch::{broker::Broker, data_storage::DataStorageTemp, nodeids::U256};
use flmodules::{
    nodeconfig::NodeInfo,
    router::messages::{NetworkWrapper, RouterIn, RouterOut},
    web_proxy::{
        broker::{WebProxy, WebProxyIn, WebProxyOut},
        core::WebProxyConfig,
        response::{ResponseHeader, ResponseMessage, ResponseStatus},
    },
    Modules,
};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::mpsc::{channel, Receiver, UnboundedReceiver};

const MODULE: &str = "WebProxy";
/// The messages between two nodes, as they are on the wire.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum ModuleMessage {
    Request(U256, String),
    Response(U256, ResponseMessage),
}
fn wrap(m: &ModuleMessage) -> NetworkWrapper {
    NetworkWrapper::wrap_yaml(MODULE, m).unwrap()
}
/// What goes to other nodes.
fn sent(tap: &mut UnboundedReceiver<RouterIn>) -> Vec<(U256, ModuleMessage)> {
    drain(tap)
        .into_iter()
        .filter_map(|m| match m {
            RouterIn::NetworkWrapperToNetwork(d, w) => w.unwrap_yaml(MODULE).map(|m| (d, m)),
            _ => None,
        })
        .collect()
}
fn header(c: &mut Case) -> ResponseHeader {
    let code = [200, 404, 301, 500][c.range(0, 3)];
    let headers = (0..c.range(0, 2)).map(|i| (format!("h{i}"), vec![["a", "", "x: y"][c.range(0, 2)].to_string()])).collect();
    ResponseHeader::new(ResponseStatus { code, msg: "".into() }, headers)
}
fn part(c: &mut Case, nbr: usize) -> Bytes {
    let len = [0, 1, 3, 40][c.range(0, 3)];
    Bytes::from(format!("<{nbr}>{}", "x".repeat(len)))
}

struct Request {
    nonce: U256,
    node: U256,
    rx: Option<Receiver<Bytes>>,
    over: bool,
    bodies: Vec<Bytes>,
    got: Vec<Bytes>,
    headers: Vec<ResponseHeader>,
}

pub fn w01(c: &mut Case) -> Res {
    match c.n % 40 {
        13 => serve(c),
        7 | 27 => many_threads(c),
        _ => rt().block_on(client(c)),
    }
}

async fn client(c: &mut Case) -> Res {
    let me = rnd_u256(c);
    let mut router: Broker<RouterIn, RouterOut> = Broker::new();
    let mut proxy = WebProxy::start(Box::new(DataStorageTemp::new()), me, router.clone(), WebProxyConfig::default()).await.expect("starting");
    let (mut to_net, _) = router.get_tap_in().await.unwrap();
    let (mut outs, _) = proxy.web_proxy.get_tap_out().await.unwrap();
    quiet().await;
    let all: Vec<U256> = (0..6).map(|_| rnd_u256(c)).chain([me]).collect();
    let mut nodes: Vec<U256> = vec![];
    let mut turn: Vec<U256> = vec![];
    let mut reqs: Vec<Request> = vec![];
    let mut told: Vec<(U256, U256, ResponseHeader)> = vec![];
    let mut nbr = 0;
    for _ in 0..c.range(5, 40) {
        match c.range(0, 99) {
            0..=9 => {
                let mut infos = vec![];
                nodes.clear();
                for id in &all {
                    if c.chance(50) {
                        let mut i = NodeInfo::new_from_id(*id);
                        let serves = c.chance(75);
                        i.modules = if serves { Modules::WEBPROXY_REQUESTS | Modules::STAT } else { Modules::all() - Modules::WEBPROXY_REQUESTS };
                        infos.push(i);
                        if serves && *id != me {
                            nodes.push(*id);
                        }
                    }
                }
                turn.clear();
                c.log(format!("connected: {:?}, {} serve", infos.iter().map(|i| i.get_id()).collect::<Vec<_>>(), nodes.len()));
                router.emit_msg_out(RouterOut::NodeInfosConnected(infos)).unwrap();
            }
            10..=34 if reqs.len() < 12 => {
                let nonce = rnd_u256(c);
                let (tx, rx) = channel([1, 2, 128][c.range(0, 2)]);
                let url = format!("http://localhost/{}", reqs.len());
                c.log(format!("request {nonce} for {url}"));
                c.count("requests");
                proxy.web_proxy.emit_msg_in(WebProxyIn::RequestGet(nonce, url.clone(), tx)).unwrap();
                quiet().await;
                let out = sent(&mut to_net);
                if nodes.is_empty() {
                    c.check(out.is_empty(), "nobody", || format!("there is nobody to ask, but sent {out:?}"))?;
                    continue;
                }
                c.check(out.len() == 1 && out[0].1 == ModuleMessage::Request(nonce, url.clone()), "request", || format!("should have sent one request for {url}, but sent {out:?}"))?;
                let node = out[0].0;
                c.check(nodes.contains(&node), "whom", || format!("asked {node}, which is not one of {nodes:?}"))?;
                turn.push(node);
                let last = &turn[turn.len().saturating_sub(nodes.len())..];
                c.check(last.iter().enumerate().all(|(i, n)| !last[..i].contains(n)), "turn", || format!("{node} was asked again before its turn: {last:?} of {nodes:?}"))?;
                reqs.push(Request { nonce, node, rx: Some(rx), over: false, bodies: vec![], got: vec![], headers: vec![] });
                continue;
            }
            10..=84 if !reqs.is_empty() => {
                let r = c.range(0, reqs.len() - 1);
                let src = if c.chance(80) { reqs[r].node } else { all[c.range(0, all.len() - 1)] };
                let nonce = if c.chance(92) { reqs[r].nonce } else { rnd_u256(c) };
                nbr += 1;
                let m = match c.range(0, 19) {
                    0..=2 => ResponseMessage::Header(header(c)),
                    3 => ResponseMessage::Done,
                    4 => ResponseMessage::Error("wrong".into()),
                    _ => ResponseMessage::Body(part(c, nbr)),
                };
                c.log(format!("{src} answers to {nonce}: {m:?}"));
                c.count("answers");
                router.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(src, wrap(&ModuleMessage::Response(nonce, m.clone())))).unwrap();
                let q = &mut reqs[r];
                if src == q.node && nonce == q.nonce && !q.over {
                    match m {
                        ResponseMessage::Header(h) => {
                            told.push((src, nonce, h.clone()));
                            q.headers.push(h);
                        }
                        ResponseMessage::Body(b) => q.bodies.push(b),
                        _ => q.over = true,
                    }
                }
            }
            10..=89 if !reqs.is_empty() => {
                let r = c.range(0, reqs.len() - 1);
                if c.chance(30) {
                    reqs[r].rx = None;
                    c.log(format!("nobody waits for {} anymore", reqs[r].nonce));
                } else {
                    quiet().await;
                    let q = &mut reqs[r];
                    if let Some(b) = q.rx.as_mut().and_then(|r| r.try_recv().ok()) {
                        q.got.push(b);
                    }
                }
            }
            90..=93 => {
                let w = NetworkWrapper { module: [MODULE, "other"][c.range(0, 1)].into(), msg: ["", "- 1", "x: {", "{}", "Request: {}"][c.range(0, 4)].into() };
                c.log(format!("garbage {w:?}"));
                router.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(all[0], w)).unwrap();
            }
            _ => quiet().await,
        }
        quiet().await;
        let out = sent(&mut to_net);
        c.check(out.is_empty(), "more", || format!("nobody should be asked now, but sent {out:?}"))?;
    }
    quiet().await;
    let heard: Vec<_> = drain(&mut outs).into_iter().map(|WebProxyOut::ResponseGet(p, n, h)| (p, n, h)).collect();
    c.check(heard == told, "headers", || format!("the headers should be {told:?}, but are {heard:?}"))?;
    for q in reqs.iter_mut() {
        let Some(mut rx) = q.rx.take() else { continue };
        let mut ended = false;
        loop {
            quiet().await;
            match rx.try_recv() {
                Ok(b) => q.got.push(b),
                Err(e) => {
                    ended = e == tokio::sync::mpsc::error::TryRecvError::Disconnected;
                    break;
                }
            }
        }
        c.check(q.got == q.bodies, "parts", || format!("the parts for {} should be {:?}, but are {:?}", q.nonce, q.bodies, q.got))?;
        c.check(ended == q.over, "end", || format!("the answer to {} {} over, but the requester {}", q.nonce, if q.over { "is" } else { "is not" }, if ended { "sees the end" } else { "still waits" }))?;
    }
    if !nodes.is_empty() && c.chance(50) {
        // The whole of it, as a user does it.
        let mut p = proxy.clone();
        let t = tokio::spawn(async move {
            let mut r = p.get("http://localhost/").await?;
            let b = r.bytes().await;
            anyhow::Ok((r.proxy(), r.headers(), b))
        });
        quiet().await;
        let out = sent(&mut to_net);
        let Some((node, ModuleMessage::Request(nonce, _))) = out.first().cloned() else { return c.fail("get", format!("get should ask one node, but sent {out:?}")) };
        let h = header(c);
        let parts: Vec<Bytes> = (0..c.range(0, 200)).map(|i| part(c, i)).collect();
        let mut ms = vec![ResponseMessage::Header(h.clone())];
        ms.extend(parts.iter().cloned().map(ResponseMessage::Body));
        ms.push(ResponseMessage::Done);
        for m in ms {
            router.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(node, wrap(&ModuleMessage::Response(nonce, m)))).unwrap();
        }
        for _ in 0..40 {
            quiet().await;
        }
        c.check(t.is_finished(), "get-end", || "get doesn't end".into())?;
        let r = t.await.unwrap();
        let Ok((p, rh, b)) = r else { return c.fail("get", format!("get failed: {r:?}")) };
        c.check(p == node && rh == h && b == parts.concat(), "get", || format!("get from {node} gave {p}, {rh:?}, {b:?}, but was sent {h:?}, {parts:?}"))?;
        c.count("gets");
    }
    Ok(())
}

/// Many parts, with several threads.
fn many_threads(c: &mut Case) -> Res {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_time().build().unwrap();
    let me = rnd_u256(c);
    let other = rnd_u256(c);
    let nonce = rnd_u256(c);
    let parts: Vec<Bytes> = (0..c.range(2, 100)).map(|i| part(c, i)).collect();
    c.log(format!("{} parts from one node, several threads", parts.len()));
    let ps = parts.clone();
    let got = rt.block_on(async move {
        tokio::spawn(async move {
            let mut router: Broker<RouterIn, RouterOut> = Broker::new();
            let mut proxy = WebProxy::start(Box::new(DataStorageTemp::new()), me, router.clone(), WebProxyConfig::default()).await.expect("starting");
            let (mut to_net, _) = router.get_tap_in().await.unwrap();
            router.emit_msg_out(RouterOut::NodeInfosConnected(vec![NodeInfo::new_from_id(other)])).unwrap();
            tokio::time::sleep(Duration::from_millis(5)).await;
            let (tx, mut rx) = channel(128);
            proxy.web_proxy.emit_msg_in(WebProxyIn::RequestGet(nonce, "http://localhost/".into(), tx)).unwrap();
            tokio::time::timeout(Duration::from_secs(5), to_net.recv()).await.ok()?;
            for m in ps.into_iter().map(ResponseMessage::Body).chain([ResponseMessage::Done]) {
                router.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(other, wrap(&ModuleMessage::Response(nonce, m)))).unwrap();
            }
            let mut got = vec![];
            while let Some(b) = tokio::time::timeout(Duration::from_secs(5), rx.recv()).await.ok()? {
                got.push(b);
            }
            Some(got)
        })
        .await
        .unwrap()
    });
    rt.shutdown_timeout(Duration::from_millis(10));
    c.count("several threads");
    // Nothing at all within 5 seconds: the machine is too busy to tell.
    let Some(got) = got else { return Ok(()) };
    c.check(got == parts, "threads", || format!("the parts should be {parts:?}, but are {got:?}"))
}

/// The node which fetches a page for another one.
fn serve(c: &mut Case) -> Res {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let Ok(l) = tokio::net::TcpListener::bind("127.0.0.1:0").await else { return Ok(()) };
        let port = l.local_addr().unwrap().port();
        let body: Vec<u8> = (0..c.range(0, 4000)).map(|i| (i % 251) as u8).collect();
        let kind = c.range(0, 3);
        let code = [200, 200, 404, 500, 203][c.range(0, 4)];
        let cookies: Vec<String> = (0..c.range(0, 3)).map(|i| format!("c{i}")).collect();
        let cs = cookies.clone();
        c.log(format!("a page of {} bytes, {}", body.len(), ["as it should be", "in pieces", "with a strange header", "but the connection breaks in the middle"][kind]));
        let b = body.clone();
        tokio::spawn(async move {
            while let Ok((mut s, _)) = l.accept().await {
                let mut buf = [0u8; 4096];
                let _ = s.read(&mut buf).await;
                let len = b.len() + if kind == 3 { 10 } else { 0 };
                let mut head = format!("HTTP/1.1 {code} Some\r\nContent-Length: {len}\r\nConnection: close\r\nX-Test: yes\r\n").into_bytes();
                if kind == 2 {
                    head.extend(b"X-Name: caf\xe9\r\n");
                }
                for k in &cs {
                    head.extend(format!("Set-Cookie: {k}\r\n").into_bytes());
                }
                head.extend(b"\r\n");
                let _ = s.write_all(&head).await;
                for p in b.chunks(if kind == 1 { 700 } else { 100000 }) {
                    let _ = s.write_all(p).await;
                    let _ = s.flush().await;
                    tokio::task::yield_now().await;
                }
            }
        });
        let mut router: Broker<RouterIn, RouterOut> = Broker::new();
        let _proxy = WebProxy::start(Box::new(DataStorageTemp::new()), rnd_u256(c), router.clone(), WebProxyConfig::default()).await.expect("starting");
        let (mut to_net, _) = router.get_tap_in().await.unwrap();
        let (src, nonce) = (rnd_u256(c), rnd_u256(c));
        router.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(src, wrap(&ModuleMessage::Request(nonce, format!("http://127.0.0.1:{port}/"))))).unwrap();
        let mut msgs = vec![];
        let mut over = false;
        for _ in 0..10000 {
            let Ok(Some(m)) = tokio::time::timeout(Duration::from_secs(8), to_net.recv()).await else { break };
            let RouterIn::NetworkWrapperToNetwork(d, w) = m else { continue };
            let Some(ModuleMessage::Response(n, m)) = w.unwrap_yaml(MODULE) else { return c.fail("serve", format!("sent {w:?}")) };
            c.check(d == src && n == nonce, "serve-whom", || format!("{src} asked with {nonce}, but {d} got an answer for {n}"))?;
            over = matches!(m, ResponseMessage::Done | ResponseMessage::Error(_));
            msgs.push(m);
            if over {
                break;
            }
        }
        c.count("pages fetched");
        c.check(over, "serve-end", || format!("the answer has no end: {} messages", msgs.len()))?;
        let got: Vec<u8> = msgs.iter().flat_map(|m| if let ResponseMessage::Body(b) = m { b.to_vec() } else { vec![] }).collect();
        let heads: HashMap<usize, &ResponseHeader> = msgs.iter().enumerate().filter_map(|(i, m)| if let ResponseMessage::Header(h) = m { Some((i, h)) } else { None }).collect();
        c.check(heads.len() == 1 && heads.get(&0).map(|h| h.status.code == code && h.headers.get("set-cookie").cloned().unwrap_or_default() == cookies && h.headers.get("x-test") == Some(&vec!["yes".to_string()])).unwrap_or(false), "serve-header", || format!("the headers are {heads:?}"))?;
        if kind == 3 {
            c.check(body.starts_with(&got), "serve-body", || "the page is not what was sent".into())?;
            c.check(matches!(msgs.last(), Some(ResponseMessage::Error(_))), "serve-broken", || "the page broke off, but it was sent as if it was complete".into())
        } else {
            c.check(got == body && msgs.last() == Some(&ResponseMessage::Done), "serve-body", || format!("the page has {} bytes, but {} were sent on", body.len(), got.len()))
        }
    })
}
