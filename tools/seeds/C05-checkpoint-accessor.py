PROPERTY = 'C05'
NEEDS = 'a state whose previous and current justified checkpoints differ'
BREAKS = 'the accessor of the current justified checkpoint falls back to the previous one while the current one has a zero root'
EDITS = [('beacon-chain/beacon_state.hpp', '{ return current_justified_checkpoint_; }', '{\n        return current_justified_checkpoint_.root == Root{} ? previous_justified_checkpoint_ : current_justified_checkpoint_;\n    }')]
