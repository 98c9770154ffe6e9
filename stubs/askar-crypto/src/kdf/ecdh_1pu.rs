use super::{concat::*, KeyDerivation, KeyExchange};
use crate::buffer::SecretBytes;
use crate::error::{err, Error, ErrorKind};

#[derive(Debug)]
pub struct Ecdh1PU<'d, Key: KeyExchange + ?Sized> {
    ephem_key: &'d Key,
    send_key: &'d Key,
    recip_key: &'d Key,
    alg: &'d [u8],
    apu: &'d [u8],
    apv: &'d [u8],
    cc_tag: &'d [u8],
    receive: bool,
}

impl<'d, Key: KeyExchange + ?Sized> Ecdh1PU<'d, Key> {
    pub fn new(
        ephem_key: &'d Key,
        send_key: &'d Key,
        recip_key: &'d Key,
        alg: &'d [u8],
        apu: &'d [u8],
        apv: &'d [u8],
        cc_tag: &'d [u8],
        receive: bool,
    ) -> Self {
        Self { ephem_key, send_key, recip_key, alg, apu, apv, cc_tag, receive }
    }
}

impl<Key: KeyExchange + ?Sized> KeyDerivation for Ecdh1PU<'_, Key> {
    fn derive_key_bytes(&mut self, key_output: &mut [u8]) -> Result<(), Error> {
        if self.cc_tag.len() > 128 {
            return err(ErrorKind::Unsupported, "Exceeded maximum length for cc_tag");
        }
        let mut z = SecretBytes::with_capacity(64);
        if self.receive {
            self.recip_key.write_key_exchange(self.ephem_key, &mut z)?;
            self.recip_key.write_key_exchange(self.send_key, &mut z)?;
        } else {
            self.ephem_key.write_key_exchange(self.recip_key, &mut z)?;
            self.send_key.write_key_exchange(self.recip_key, &mut z)?;
        }
        let mut pub_info = ((key_output.len() as u32) * 8).to_be_bytes().to_vec();
        if !self.cc_tag.is_empty() {
            pub_info.extend_from_slice(&(self.cc_tag.len() as u32).to_be_bytes());
            pub_info.extend_from_slice(self.cc_tag);
        }
        concat_kdf(
            z.as_ref(),
            ConcatKDFParams {
                alg: self.alg,
                apu: self.apu,
                apv: self.apv,
                pub_info: &pub_info,
                prv_info: &[],
            },
            key_output,
        );
        Ok(())
    }
}
