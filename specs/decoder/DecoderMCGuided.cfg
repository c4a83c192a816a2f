SPECIFICATION MCSpec
CONSTANTS Requests <- Guided
INVARIANTS ScoresAdd Bounded Attained CoversOnce Promise NeverStuck
CHECK_DEADLOCK FALSE
