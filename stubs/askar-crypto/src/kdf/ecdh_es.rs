use super::{concat::*, KeyDerivation, KeyExchange};
use crate::error::Error;

#[derive(Debug)]
pub struct EcdhEs<'d, Key: KeyExchange + ?Sized> {
    ephem_key: &'d Key,
    recip_key: &'d Key,
    alg: &'d [u8],
    apu: &'d [u8],
    apv: &'d [u8],
    receive: bool,
}

impl<'d, Key: KeyExchange + ?Sized> EcdhEs<'d, Key> {
    pub fn new(
        ephem_key: &'d Key,
        recip_key: &'d Key,
        alg: &'d [u8],
        apu: &'d [u8],
        apv: &'d [u8],
        receive: bool,
    ) -> Self {
        Self { ephem_key, recip_key, alg, apu, apv, receive }
    }
}

impl<Key: KeyExchange + ?Sized> KeyDerivation for EcdhEs<'_, Key> {
    fn derive_key_bytes(&mut self, key_output: &mut [u8]) -> Result<(), Error> {
        let z = if self.receive {
            self.recip_key.key_exchange_bytes(self.ephem_key)?
        } else {
            self.ephem_key.key_exchange_bytes(self.recip_key)?
        };
        concat_kdf(
            z.as_ref(),
            ConcatKDFParams {
                alg: self.alg,
                apu: self.apu,
                apv: self.apv,
                pub_info: &((key_output.len() as u32) * 8).to_be_bytes(),
                prv_info: &[],
            },
            key_output,
        );
        Ok(())
    }
}
