// shapes copied from rusoto_s3 0.48.0 (documentation stripped)
use rusoto_core::ByteStream as StreamingBody;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct ListObjectsV2Request {
    pub bucket: String,
    pub continuation_token: Option<String>,
    pub delimiter: Option<String>,
    pub encoding_type: Option<String>,
    pub expected_bucket_owner: Option<String>,
    pub fetch_owner: Option<bool>,
    pub max_keys: Option<i64>,
    pub prefix: Option<String>,
    pub request_payer: Option<String>,
    pub start_after: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ListObjectsV2Output {
    pub common_prefixes: Option<Vec<CommonPrefix>>,
    pub contents: Option<Vec<Object>>,
    pub continuation_token: Option<String>,
    pub delimiter: Option<String>,
    pub encoding_type: Option<String>,
    pub is_truncated: Option<bool>,
    pub key_count: Option<i64>,
    pub max_keys: Option<i64>,
    pub name: Option<String>,
    pub next_continuation_token: Option<String>,
    pub prefix: Option<String>,
    pub start_after: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ListObjectsRequest {
    pub bucket: String,
    pub delimiter: Option<String>,
    pub encoding_type: Option<String>,
    pub expected_bucket_owner: Option<String>,
    pub marker: Option<String>,
    pub max_keys: Option<i64>,
    pub prefix: Option<String>,
    pub request_payer: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ListObjectsOutput {
    pub common_prefixes: Option<Vec<CommonPrefix>>,
    pub contents: Option<Vec<Object>>,
    pub delimiter: Option<String>,
    pub encoding_type: Option<String>,
    pub is_truncated: Option<bool>,
    pub marker: Option<String>,
    pub max_keys: Option<i64>,
    pub name: Option<String>,
    pub next_marker: Option<String>,
    pub prefix: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct GetObjectRequest {
    pub bucket: String,
    pub expected_bucket_owner: Option<String>,
    pub if_match: Option<String>,
    pub if_modified_since: Option<String>,
    pub if_none_match: Option<String>,
    pub if_unmodified_since: Option<String>,
    pub key: String,
    pub part_number: Option<i64>,
    pub range: Option<String>,
    pub request_payer: Option<String>,
    pub response_cache_control: Option<String>,
    pub response_content_disposition: Option<String>,
    pub response_content_encoding: Option<String>,
    pub response_content_language: Option<String>,
    pub response_content_type: Option<String>,
    pub response_expires: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub version_id: Option<String>,
}

#[derive(Debug, Default)]
pub struct GetObjectOutput {
    pub accept_ranges: Option<String>,
    pub body: Option<StreamingBody>,
    pub bucket_key_enabled: Option<bool>,
    pub cache_control: Option<String>,
    pub content_disposition: Option<String>,
    pub content_encoding: Option<String>,
    pub content_language: Option<String>,
    pub content_length: Option<i64>,
    pub content_range: Option<String>,
    pub content_type: Option<String>,
    pub delete_marker: Option<bool>,
    pub e_tag: Option<String>,
    pub expiration: Option<String>,
    pub expires: Option<String>,
    pub last_modified: Option<String>,
    pub metadata: Option<::std::collections::HashMap<String, String>>,
    pub missing_meta: Option<i64>,
    pub object_lock_legal_hold_status: Option<String>,
    pub object_lock_mode: Option<String>,
    pub object_lock_retain_until_date: Option<String>,
    pub parts_count: Option<i64>,
    pub replication_status: Option<String>,
    pub request_charged: Option<String>,
    pub restore: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub storage_class: Option<String>,
    pub tag_count: Option<i64>,
    pub version_id: Option<String>,
    pub website_redirect_location: Option<String>,
}

#[derive(Debug, Default)]
pub struct PutObjectRequest {
    pub acl: Option<String>,
    pub body: Option<StreamingBody>,
    pub bucket: String,
    pub bucket_key_enabled: Option<bool>,
    pub cache_control: Option<String>,
    pub content_disposition: Option<String>,
    pub content_encoding: Option<String>,
    pub content_language: Option<String>,
    pub content_length: Option<i64>,
    pub content_md5: Option<String>,
    pub content_type: Option<String>,
    pub expected_bucket_owner: Option<String>,
    pub expires: Option<String>,
    pub grant_full_control: Option<String>,
    pub grant_read: Option<String>,
    pub grant_read_acp: Option<String>,
    pub grant_write_acp: Option<String>,
    pub key: String,
    pub metadata: Option<::std::collections::HashMap<String, String>>,
    pub object_lock_legal_hold_status: Option<String>,
    pub object_lock_mode: Option<String>,
    pub object_lock_retain_until_date: Option<String>,
    pub request_payer: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_encryption_context: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub storage_class: Option<String>,
    pub tagging: Option<String>,
    pub website_redirect_location: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct PutObjectOutput {
    pub bucket_key_enabled: Option<bool>,
    pub e_tag: Option<String>,
    pub expiration: Option<String>,
    pub request_charged: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_encryption_context: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub version_id: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct HeadObjectRequest {
    pub bucket: String,
    pub expected_bucket_owner: Option<String>,
    pub if_match: Option<String>,
    pub if_modified_since: Option<String>,
    pub if_none_match: Option<String>,
    pub if_unmodified_since: Option<String>,
    pub key: String,
    pub part_number: Option<i64>,
    pub range: Option<String>,
    pub request_payer: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub version_id: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct HeadObjectOutput {
    pub accept_ranges: Option<String>,
    pub archive_status: Option<String>,
    pub bucket_key_enabled: Option<bool>,
    pub cache_control: Option<String>,
    pub content_disposition: Option<String>,
    pub content_encoding: Option<String>,
    pub content_language: Option<String>,
    pub content_length: Option<i64>,
    pub content_type: Option<String>,
    pub delete_marker: Option<bool>,
    pub e_tag: Option<String>,
    pub expiration: Option<String>,
    pub expires: Option<String>,
    pub last_modified: Option<String>,
    pub metadata: Option<::std::collections::HashMap<String, String>>,
    pub missing_meta: Option<i64>,
    pub object_lock_legal_hold_status: Option<String>,
    pub object_lock_mode: Option<String>,
    pub object_lock_retain_until_date: Option<String>,
    pub parts_count: Option<i64>,
    pub replication_status: Option<String>,
    pub request_charged: Option<String>,
    pub restore: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub storage_class: Option<String>,
    pub version_id: Option<String>,
    pub website_redirect_location: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct DeleteObjectRequest {
    pub bucket: String,
    pub bypass_governance_retention: Option<bool>,
    pub expected_bucket_owner: Option<String>,
    pub key: String,
    pub mfa: Option<String>,
    pub request_payer: Option<String>,
    pub version_id: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct DeleteObjectOutput {
    pub delete_marker: Option<bool>,
    pub request_charged: Option<String>,
    pub version_id: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct CopyObjectRequest {
    pub acl: Option<String>,
    pub bucket: String,
    pub bucket_key_enabled: Option<bool>,
    pub cache_control: Option<String>,
    pub content_disposition: Option<String>,
    pub content_encoding: Option<String>,
    pub content_language: Option<String>,
    pub content_type: Option<String>,
    pub copy_source: String,
    pub copy_source_if_match: Option<String>,
    pub copy_source_if_modified_since: Option<String>,
    pub copy_source_if_none_match: Option<String>,
    pub copy_source_if_unmodified_since: Option<String>,
    pub copy_source_sse_customer_algorithm: Option<String>,
    pub copy_source_sse_customer_key: Option<String>,
    pub copy_source_sse_customer_key_md5: Option<String>,
    pub expected_bucket_owner: Option<String>,
    pub expected_source_bucket_owner: Option<String>,
    pub expires: Option<String>,
    pub grant_full_control: Option<String>,
    pub grant_read: Option<String>,
    pub grant_read_acp: Option<String>,
    pub grant_write_acp: Option<String>,
    pub key: String,
    pub metadata: Option<::std::collections::HashMap<String, String>>,
    pub metadata_directive: Option<String>,
    pub object_lock_legal_hold_status: Option<String>,
    pub object_lock_mode: Option<String>,
    pub object_lock_retain_until_date: Option<String>,
    pub request_payer: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_encryption_context: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub storage_class: Option<String>,
    pub tagging: Option<String>,
    pub tagging_directive: Option<String>,
    pub website_redirect_location: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct CopyObjectOutput {
    pub bucket_key_enabled: Option<bool>,
    pub copy_object_result: Option<CopyObjectResult>,
    pub copy_source_version_id: Option<String>,
    pub expiration: Option<String>,
    pub request_charged: Option<String>,
    pub sse_customer_algorithm: Option<String>,
    pub sse_customer_key_md5: Option<String>,
    pub ssekms_encryption_context: Option<String>,
    pub ssekms_key_id: Option<String>,
    pub server_side_encryption: Option<String>,
    pub version_id: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct CopyObjectResult {
    pub e_tag: Option<String>,
    pub last_modified: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Object {
    pub e_tag: Option<String>,
    pub key: Option<String>,
    pub last_modified: Option<String>,
    pub owner: Option<Owner>,
    pub size: Option<i64>,
    pub storage_class: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Owner {
    pub display_name: Option<String>,
    pub id: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct CommonPrefix {
    pub prefix: Option<String>,
}

#[derive(Debug, PartialEq)]
pub enum ListObjectsV2Error {
    NoSuchBucket(String),
}
impl std::fmt::Display for ListObjectsV2Error {
    #[allow(unused_variables)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match *self {
            ListObjectsV2Error::NoSuchBucket(ref c) => write!(f, "{}", c),
        }
    }
}
impl std::error::Error for ListObjectsV2Error {}

#[derive(Debug, PartialEq)]
pub enum ListObjectsError {
    NoSuchBucket(String),
}
impl std::fmt::Display for ListObjectsError {
    #[allow(unused_variables)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match *self {
            ListObjectsError::NoSuchBucket(ref c) => write!(f, "{}", c),
        }
    }
}
impl std::error::Error for ListObjectsError {}

#[derive(Debug, PartialEq)]
pub enum GetObjectError {
    InvalidObjectState(String),
    NoSuchKey(String),
}
impl std::fmt::Display for GetObjectError {
    #[allow(unused_variables)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match *self {
            GetObjectError::InvalidObjectState(ref c) => write!(f, "{}", c),
            GetObjectError::NoSuchKey(ref c) => write!(f, "{}", c),
        }
    }
}
impl std::error::Error for GetObjectError {}

#[derive(Debug, PartialEq)]
pub enum PutObjectError {}
impl std::fmt::Display for PutObjectError {
    #[allow(unused_variables)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match *self {
            _ => Ok(()),
        }
    }
}
impl std::error::Error for PutObjectError {}

#[derive(Debug, PartialEq)]
pub enum HeadObjectError {
    NoSuchKey(String),
}
impl std::fmt::Display for HeadObjectError {
    #[allow(unused_variables)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match *self {
            HeadObjectError::NoSuchKey(ref c) => write!(f, "{}", c),
        }
    }
}
impl std::error::Error for HeadObjectError {}

#[derive(Debug, PartialEq)]
pub enum DeleteObjectError {}
impl std::fmt::Display for DeleteObjectError {
    #[allow(unused_variables)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match *self {
            _ => Ok(()),
        }
    }
}
impl std::error::Error for DeleteObjectError {}

#[derive(Debug, PartialEq)]
pub enum CopyObjectError {
    ObjectNotInActiveTierError(String),
}
impl std::fmt::Display for CopyObjectError {
    #[allow(unused_variables)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match *self {
            CopyObjectError::ObjectNotInActiveTierError(ref c) => write!(f, "{}", c),
        }
    }
}
impl std::error::Error for CopyObjectError {}
