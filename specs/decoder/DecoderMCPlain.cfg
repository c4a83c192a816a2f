SPECIFICATION MCSpec
CONSTANTS Requests <- Plain
INVARIANTS ScoresAdd Bounded Attained CoversOnce Promise NeverStuck
CHECK_DEADLOCK FALSE
