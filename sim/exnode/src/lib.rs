//! The example client and server, without their `main` functions.

#[macro_use]
extern crate log;

#[path = "/repo/examples/src/client/auth.rs"]
pub mod auth;
#[path = "/repo/examples/src/server/authorization.rs"]
mod authorization;
#[path = "/repo/examples/src/server/handler.rs"]
pub mod handler;
#[macro_use]
#[path = "/repo/examples/src/client/request.rs"]
pub mod request;

pub use {futures_util, http, http_body, hyper, tokio, tower_service};

request! {
    GET "http://127.0.0.1:8080/echo";
    #[derive(oauth::Request)]
    pub struct GetEcho['a] {
        pub foo: &'a str,
    }

    POST "http://127.0.0.1:8080/echo";
    #[derive(oauth::Request)]
    pub struct PostEcho['a] {
        pub bar: &'a str,
        pub baz: &'a str,
    }

    GET "http://127.0.0.1:8080/echo";
    #[derive(oauth::Request)]
    pub struct GetMore['a] {
        pub a: Option<&'a str>,
        #[oauth1(rename = "oauth_z")]
        pub z: u64,
        #[oauth1(rename = "oauth_body_hash", skip_if = str::is_empty)]
        pub hash: &'a str,
    }

    POST "http://127.0.0.1:8080/echo";
    #[derive(oauth::Request)]
    pub struct PostMore['a] {
        pub b: Option<&'a str>,
        #[oauth1(rename = "Z")]
        pub z: bool,
        pub oauth_o: &'a str,
    }
}

/// `main` of the server, but for the sockets.
pub async fn route(req: hyper::Request<hyper::Body>) -> hyper::Response<hyper::Body> {
    match (req.method(), req.uri().path()) {
        (&http::Method::GET, "/echo") | (&http::Method::POST, "/echo") => handler::echo(req).await,
        (&http::Method::POST, "/request_temp_credentials") => handler::post_request_temp_credentials(req).await,
        (&http::Method::POST, "/request_token") => handler::post_request_token(req).await,
        _ => hyper::Response::builder().status(hyper::StatusCode::NOT_FOUND).body(Default::default()).unwrap(),
    }
}
