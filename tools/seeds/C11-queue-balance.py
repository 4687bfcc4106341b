PROPERTY = 'C11'
NEEDS = 'a validator whose effective balance is above the maximum by less than one increment'
BREAKS = 'eligibility compares whole increments of the balance'
EDITS = [('beacon-chain/validator.cpp', 'effective_balance  == constants::MAX_EFFECTIVE_BALANCE;', 'effective_balance / constants::EFFECTIVE_BALANCE_INCREMENT == constants::MAX_EFFECTIVE_BALANCE / constants::EFFECTIVE_BALANCE_INCREMENT;')]
