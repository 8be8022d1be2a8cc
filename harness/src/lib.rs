pub mod vk;
pub mod util;
pub mod msgs;
#[cfg(feature = "sym")]
pub mod ov;
pub mod c_types;
pub mod c_msgs;
pub mod c_frame;
pub mod c_noise;
pub mod c_cert;
pub mod c_net;
pub mod c_sys;
pub mod c_iso;
pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    let mut v = vec![];
    v.extend_from_slice(c_types::TABLE);
    v.extend_from_slice(c_msgs::TABLE);
    v.extend_from_slice(c_frame::TABLE);
    v.extend_from_slice(c_noise::TABLE);
    v.extend_from_slice(c_cert::TABLE);
    v.extend_from_slice(c_net::TABLE);
    v.extend_from_slice(c_sys::TABLE);
    v.extend_from_slice(c_iso::TABLE);
    v
}
