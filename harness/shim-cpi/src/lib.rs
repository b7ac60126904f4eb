//! Same interface as solana-cpi 2.2.1; off chain the real crate silently ignores
//! invocations, this one records them so that a monitor can judge them.
use solana_account_info::AccountInfo;
use solana_instruction::Instruction;
use solana_program_error::ProgramResult;
use solana_pubkey::Pubkey;
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub struct Call {
    pub instruction: Instruction,
    pub infos: Vec<Pubkey>,
    pub seeds: Vec<Vec<Vec<u8>>>,
}
thread_local! {
    pub static CALLS: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
}
pub fn take_calls() -> Vec<Call> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

pub fn invoke(instruction: &Instruction, account_infos: &[AccountInfo]) -> ProgramResult {
    invoke_signed(instruction, account_infos, &[])
}
pub fn invoke_unchecked(instruction: &Instruction, account_infos: &[AccountInfo]) -> ProgramResult {
    invoke_signed_unchecked(instruction, account_infos, &[])
}
pub fn invoke_signed(
    instruction: &Instruction,
    account_infos: &[AccountInfo],
    signers_seeds: &[&[&[u8]]],
) -> ProgramResult {
    for m in instruction.accounts.iter() {
        for a in account_infos.iter() {
            if m.pubkey == *a.key {
                if m.is_writable {
                    let _ = a.try_borrow_mut_lamports()?;
                    let _ = a.try_borrow_mut_data()?;
                } else {
                    let _ = a.try_borrow_lamports()?;
                    let _ = a.try_borrow_data()?;
                }
                break;
            }
        }
    }
    invoke_signed_unchecked(instruction, account_infos, signers_seeds)
}
pub fn invoke_signed_unchecked(
    instruction: &Instruction,
    account_infos: &[AccountInfo],
    signers_seeds: &[&[&[u8]]],
) -> ProgramResult {
    CALLS.with(|c| {
        c.borrow_mut().push(Call {
            instruction: instruction.clone(),
            infos: account_infos.iter().map(|a| *a.key).collect(),
            seeds: signers_seeds.iter().map(|s| s.iter().map(|b| b.to_vec()).collect()).collect(),
        })
    });
    Ok(())
}
pub const MAX_RETURN_DATA: usize = 1024;
pub fn set_return_data(_data: &[u8]) {}
pub fn get_return_data() -> Option<(Pubkey, Vec<u8>)> {
    None
}
