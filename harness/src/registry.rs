//! The RSocket registry of well-known MIME types (extensions/WellKnownMimeTypes.md), shared with
//! the native runs.
use binate::mimetype::WellKnownMimeType::{self, *};

pub const N: usize = 47;
pub const LONGEST: usize = 39;

pub const REGISTRY: [(WellKnownMimeType, &str); N] = [
    (APPLICATION_AVRO, "application/avro"),
    (APPLICATION_CBOR, "application/cbor"),
    (APPLICATION_GRAPHQL, "application/graphql"),
    (APPLICATION_GZIP, "application/gzip"),
    (APPLICATION_JAVASCRIPT, "application/javascript"),
    (APPLICATION_JSON, "application/json"),
    (APPLICATION_OCTET_STREAM, "application/octet-stream"),
    (APPLICATION_PDF, "application/pdf"),
    (APPLICATION_VND_APACHE_THRIFT_BINARY, "application/vnd.apache.thrift.binary"),
    (APPLICATION_VND_GOOGLE_PROTOBUF, "application/vnd.google.protobuf"),
    (APPLICATION_XML, "application/xml"),
    (APPLICATION_ZIP, "application/zip"),
    (AUDIO_AAC, "audio/aac"),
    (AUDIO_MP3, "audio/mp3"),
    (AUDIO_MP4, "audio/mp4"),
    (AUDIO_MPEG3, "audio/mpeg3"),
    (AUDIO_MPEG, "audio/mpeg"),
    (AUDIO_OGG, "audio/ogg"),
    (AUDIO_OPUS, "audio/opus"),
    (AUDIO_VORBIS, "audio/vorbis"),
    (IMAGE_BMP, "image/bmp"),
    (IMAGE_GIF, "image/gif"),
    (IMAGE_HEIC_SEQUENCE, "image/heic-sequence"),
    (IMAGE_HEIC, "image/heic"),
    (IMAGE_HEIF_SEQUENCE, "image/heif-sequence"),
    (IMAGE_HEIF, "image/heif"),
    (IMAGE_JPEG, "image/jpeg"),
    (IMAGE_PNG, "image/png"),
    (IMAGE_TIFF, "image/tiff"),
    (MULTIPART_MIXED, "multipart/mixed"),
    (TEXT_CSS, "text/css"),
    (TEXT_CSV, "text/csv"),
    (TEXT_HTML, "text/html"),
    (TEXT_PLAIN, "text/plain"),
    (TEXT_XML, "text/xml"),
    (VIDEO_H264, "video/H264"),
    (VIDEO_H265, "video/H265"),
    (VIDEO_VP8, "video/VP8"),
    (APPLICATION_X_HESSIAN, "application/x-hessian"),
    (APPLICATION_X_JAVA_OBJECT, "application/x-java-object"),
    (APPLICATION_CLOUDEVENTS_JSON, "application/cloudevents+json"),
    (MESSAGE_X_RSOCKET_MIME_TYPE_V0, "message/x.rsocket.mime-type.v0"),
    (MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0, "message/x.rsocket.accept-mime-types.v0"),
    (MESSAGE_X_RSOCKET_AUTHENTICATION_V0, "message/x.rsocket.authentication.v0"),
    (MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0, "message/x.rsocket.tracing-zipkin.v0"),
    (MESSAGE_X_RSOCKET_ROUTING_V0, "message/x.rsocket.routing.v0"),
    (MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0, "message/x.rsocket.composite-metadata.v0"),
];
