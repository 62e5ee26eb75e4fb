//! The device: the explorer says what it is (`mc::device`) and calls the streams (`mc::callback`).
use crate::traits::*;
use crate::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum HostId {
    Explorer,
}
impl HostId {
    pub fn name(&self) -> &'static str {
        "explorer"
    }
}
pub const ALL_HOSTS: &[HostId] = &[HostId::Explorer];
pub struct Host;
pub fn available_hosts() -> Vec<HostId> {
    vec![HostId::Explorer]
}
pub fn default_host() -> Host {
    Host
}
pub fn host_from_id(_: HostId) -> Result<Host, HostUnavailable> {
    Ok(Host)
}
impl Host {
    pub fn id(&self) -> HostId {
        HostId::Explorer
    }
}
pub type Devices = std::vec::IntoIter<Device>;
pub type SupportedInputConfigs = std::vec::IntoIter<SupportedStreamConfigRange>;
pub type SupportedOutputConfigs = std::vec::IntoIter<SupportedStreamConfigRange>;
#[derive(Clone)]
pub struct Device;
type Callback = Box<dyn FnMut(&mut Data, &OutputCallbackInfo) + Send>;
struct State {
    playing: bool,
    format: SampleFormat,
    channels: u16,
    rate: u32,
    callback: Option<Callback>,
}
thread_local! {
    static DEVICE: RefCell<(u16, u32, SampleFormat)> = const { RefCell::new((2, 48000, SampleFormat::F32)) };
    static STREAMS: RefCell<Vec<Rc<RefCell<State>>>> = const { RefCell::new(vec![]) };
}
pub struct Stream(usize);
impl Drop for Stream {
    fn drop(&mut self) {
        let s = STREAMS.with(|s| s.borrow().get(self.0).cloned());
        if let Some(s) = s {
            let c = s.borrow_mut().callback.take();
            drop(c);
        }
    }
}
impl StreamTrait for Stream {
    fn play(&self) -> Result<(), PlayStreamError> {
        STREAMS.with(|s| s.borrow()[self.0].borrow_mut().playing = true);
        Ok(())
    }
    fn pause(&self) -> Result<(), PauseStreamError> {
        STREAMS.with(|s| s.borrow()[self.0].borrow_mut().playing = false);
        Ok(())
    }
}
impl HostTrait for Host {
    type Devices = Devices;
    type Device = Device;
    fn is_available() -> bool {
        true
    }
    fn devices(&self) -> Result<Devices, DevicesError> {
        Ok(vec![Device].into_iter())
    }
    fn default_input_device(&self) -> Option<Device> {
        None
    }
    fn default_output_device(&self) -> Option<Device> {
        Some(Device)
    }
}
impl Device {
    pub fn name(&self) -> Result<String, DeviceNameError> {
        Ok("the device".into())
    }
}
impl DeviceTrait for Device {
    type SupportedInputConfigs = SupportedInputConfigs;
    type SupportedOutputConfigs = SupportedOutputConfigs;
    type Stream = Stream;
    fn name(&self) -> Result<String, DeviceNameError> {
        Device::name(self)
    }
    fn supported_input_configs(&self) -> Result<SupportedInputConfigs, SupportedStreamConfigsError> {
        Ok(vec![].into_iter())
    }
    fn supported_output_configs(&self) -> Result<SupportedOutputConfigs, SupportedStreamConfigsError> {
        let (c, r, f) = DEVICE.with(|d| *d.borrow());
        Ok(vec![SupportedStreamConfigRange::new(c, SampleRate(r), SampleRate(r), SupportedBufferSize::Unknown, f)].into_iter())
    }
    fn default_input_config(&self) -> Result<SupportedStreamConfig, DefaultStreamConfigError> {
        Err(DefaultStreamConfigError::StreamTypeNotSupported)
    }
    fn default_output_config(&self) -> Result<SupportedStreamConfig, DefaultStreamConfigError> {
        let (c, r, f) = DEVICE.with(|d| *d.borrow());
        Ok(SupportedStreamConfig::new(c, SampleRate(r), SupportedBufferSize::Unknown, f))
    }
    fn build_input_stream_raw<D, E>(&self, _: &StreamConfig, _: SampleFormat, _: D, _: E, _: Option<Duration>) -> Result<Stream, BuildStreamError>
    where
        D: FnMut(&Data, &InputCallbackInfo) + Send + 'static,
        E: FnMut(StreamError) + Send + 'static,
    {
        Err(BuildStreamError::DeviceNotAvailable)
    }
    fn build_output_stream_raw<D, E>(&self, config: &StreamConfig, format: SampleFormat, callback: D, _: E, _: Option<Duration>) -> Result<Stream, BuildStreamError>
    where
        D: FnMut(&mut Data, &OutputCallbackInfo) + Send + 'static,
        E: FnMut(StreamError) + Send + 'static,
    {
        let s = State { playing: false, format, channels: config.channels, rate: config.sample_rate.0, callback: Some(Box::new(callback)) };
        STREAMS.with(|v| {
            let mut v = v.borrow_mut();
            v.push(Rc::new(RefCell::new(s)));
            Ok(Stream(v.len() - 1))
        })
    }
}
/// What the explorer does
pub mod mc {
    use super::*;
    /// Set the device up and forget all streams (they must have been dropped or leaked).
    pub fn device(channels: u16, rate: u32, format: SampleFormat) {
        DEVICE.with(|d| *d.borrow_mut() = (channels, rate, format));
        let old = STREAMS.with(|s| std::mem::take(&mut *s.borrow_mut()));
        drop(old);
    }
    /// Number of streams playing: there should be at most one
    pub fn playing() -> usize {
        STREAMS.with(|s| s.borrow().iter().filter(|s| { let s = s.borrow(); s.playing && s.callback.is_some() }).count())
    }
    /// Let every playing stream fill a buffer of so many frames. The raw bytes of the last one, and its format,
    /// channels and sample rate.
    pub fn callback(frames: usize, fill: u8) -> Option<(Vec<u8>, SampleFormat, u16, u32)> {
        let all: Vec<_> = STREAMS.with(|s| s.borrow().clone());
        let mut r = None;
        for s in all {
            let mut s = s.borrow_mut();
            let s = &mut *s;
            if let (true, Some(c)) = (s.playing, &mut s.callback) {
                let n = frames * s.channels as usize;
                let bytes = n * s.format.sample_size();
                // aligned for every format
                let mut v = vec![u64::from_ne_bytes([fill; 8]); bytes.div_ceil(8) + 1];
                let mut d = unsafe { Data::from_parts(v.as_mut_ptr() as *mut (), n, s.format) };
                let i = StreamInstant::new(0, 0);
                let info = OutputCallbackInfo { timestamp: OutputStreamTimestamp { callback: i, playback: i } };
                c(&mut d, &info);
                let b = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, bytes + 8) };
                assert!(b[bytes..].iter().all(|b| *b == fill));
                r = Some((b[..bytes].to_vec(), s.format, s.channels, s.rate));
            }
        }
        r
    }
}
