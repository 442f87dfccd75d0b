//! Interface of rusoto_s3 that artefacta uses, answered by an in-process S3 server
//! whose contents, paging, response headers and failures the harness controls.
mod shapes;
pub mod server;
pub use shapes::*;
pub use rusoto_core::ByteStream as StreamingBody;
use async_trait::async_trait;
use rusoto_core::{request::BufferedHttpResponse, HttpDispatchError, Region, RusotoError};
use server::{server, Fail, Req};
use std::error::Error;

#[derive(Clone)]
pub struct S3Client { region: Region }
impl S3Client {
    pub fn new(region: Region) -> S3Client { S3Client { region } }
    fn host(&self) -> String { match &self.region { Region::Custom { endpoint, .. } => endpoint.clone(), r => r.name().to_string() } }
}

fn refuse<E: Error>(f: &Fail) -> RusotoError<E> {
    match f {
        Fail::Dispatch => RusotoError::HttpDispatch(HttpDispatchError::new("connection reset".into())),
        Fail::Status(c, b) => RusotoError::Unknown(BufferedHttpResponse {
            status: http::StatusCode::from_u16(*c).unwrap(), body: bytes::Bytes::from(b.as_bytes().to_vec()), headers: Default::default() }),
    }
}

#[async_trait]
pub trait S3 {
    async fn list_objects_v2(&self, input: ListObjectsV2Request) -> Result<ListObjectsV2Output, RusotoError<ListObjectsV2Error>>;
    async fn list_objects(&self, input: ListObjectsRequest) -> Result<ListObjectsOutput, RusotoError<ListObjectsError>>;
    async fn get_object(&self, input: GetObjectRequest) -> Result<GetObjectOutput, RusotoError<GetObjectError>>;
    async fn put_object(&self, input: PutObjectRequest) -> Result<PutObjectOutput, RusotoError<PutObjectError>>;
    async fn head_object(&self, input: HeadObjectRequest) -> Result<HeadObjectOutput, RusotoError<HeadObjectError>>;
    async fn delete_object(&self, input: DeleteObjectRequest) -> Result<DeleteObjectOutput, RusotoError<DeleteObjectError>>;
}

#[async_trait]
impl S3 for S3Client {
    async fn list_objects_v2(&self, input: ListObjectsV2Request) -> Result<ListObjectsV2Output, RusotoError<ListObjectsV2Error>> {
        server::delay().await;
        let s = server();
        if let Some(f) = s.request(Req::List, &self.host(), &input.bucket, input.prefix.as_deref().unwrap_or("")) { return Err(refuse(&f)) }
        let after = input.continuation_token.clone().or(input.start_after.clone());
        let (objs, prefixes, next) = s.list(&self.host(), &input.bucket, input.prefix.as_deref(), input.delimiter.as_deref(), after.as_deref(), input.max_keys);
        Ok(ListObjectsV2Output {
            key_count: Some(objs.len() as i64), is_truncated: Some(next.is_some()), next_continuation_token: if s.no_token { None } else { next },
            contents: if objs.is_empty() { None } else { Some(objs) },
            common_prefixes: if prefixes.is_empty() { None } else { Some(prefixes.into_iter().map(|p| CommonPrefix { prefix: Some(p) }).collect()) },
            name: Some(input.bucket), prefix: input.prefix, ..Default::default()
        })
    }
    async fn list_objects(&self, input: ListObjectsRequest) -> Result<ListObjectsOutput, RusotoError<ListObjectsError>> {
        server::delay().await;
        let s = server();
        if let Some(f) = s.request(Req::List, &self.host(), &input.bucket, input.prefix.as_deref().unwrap_or("")) { return Err(refuse(&f)) }
        let (objs, prefixes, next) = s.list(&self.host(), &input.bucket, input.prefix.as_deref(), input.delimiter.as_deref(), input.marker.as_deref(), input.max_keys);
        Ok(ListObjectsOutput {
            is_truncated: Some(next.is_some()), next_marker: next,
            contents: if objs.is_empty() { None } else { Some(objs) },
            common_prefixes: if prefixes.is_empty() { None } else { Some(prefixes.into_iter().map(|p| CommonPrefix { prefix: Some(p) }).collect()) },
            name: Some(input.bucket), prefix: input.prefix, ..Default::default()
        })
    }
    async fn get_object(&self, input: GetObjectRequest) -> Result<GetObjectOutput, RusotoError<GetObjectError>> {
        server::delay().await;
        let s = server();
        if let Some(f) = s.request(Req::Get, &self.host(), &input.bucket, &input.key) { return Err(refuse(&f)) }
        match s.find(&self.host(), &input.bucket, &input.key) {
            None => Err(RusotoError::Service(GetObjectError::NoSuchKey("The specified key does not exist.".into()))),
            Some(o) => Ok(GetObjectOutput {
                content_length: o.length.clone().unwrap_or(Some(o.body.len() as i64)),
                e_tag: o.etag(), body: if o.no_body { None } else { Some(o.stream()) }, ..Default::default()
            }),
        }
    }
    async fn put_object(&self, input: PutObjectRequest) -> Result<PutObjectOutput, RusotoError<PutObjectError>> {
        server::delay().await;
        let host = self.host();
        if let Some(f) = server().request(Req::Put, &host, &input.bucket, &input.key) { return Err(refuse(&f)) }
        let body = match input.body { Some(b) => server::collect(b).await.map_err(|e| RusotoError::HttpDispatch(e.into()))?, None => vec![] };
        server().put(&host, &input.bucket, &input.key, body, input.content_md5).map_err(|f| refuse(&f))?;
        Ok(PutObjectOutput::default())
    }
    async fn head_object(&self, input: HeadObjectRequest) -> Result<HeadObjectOutput, RusotoError<HeadObjectError>> {
        server::delay().await;
        let s = server();
        if let Some(f) = s.request(Req::Head, &self.host(), &input.bucket, &input.key) { return Err(refuse(&f)) }
        match s.find(&self.host(), &input.bucket, &input.key) {
            None => Err(refuse(&Fail::Status(404, "".into()))),
            Some(o) => Ok(HeadObjectOutput { content_length: o.length.clone().unwrap_or(Some(o.body.len() as i64)), e_tag: o.etag(), ..Default::default() }),
        }
    }
    async fn delete_object(&self, input: DeleteObjectRequest) -> Result<DeleteObjectOutput, RusotoError<DeleteObjectError>> {
        server::delay().await;
        let s = server();
        if let Some(f) = s.request(Req::Delete, &self.host(), &input.bucket, &input.key) { return Err(refuse(&f)) }
        s.delete(&self.host(), &input.bucket, &input.key);
        Ok(DeleteObjectOutput::default())
    }
}
