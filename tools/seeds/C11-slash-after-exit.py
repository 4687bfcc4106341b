PROPERTY = 'C11'
NEEDS = 'a validator that has exited and is not withdrawable yet'
BREAKS = 'a validator stops being slashable when it exits and not when it can withdraw, if it ever was scheduled to exit'
EDITS = [('beacon-chain/validator.cpp', '(epoch < withdrawable_epoch);', '(epoch < (exit_epoch == constants::FAR_FUTURE_EPOCH ? withdrawable_epoch : exit_epoch));')]
