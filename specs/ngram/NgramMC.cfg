SPECIFICATION Spec
CONSTANTS
 Words = {"a", "b"}
 MaxLen2 = 3
 Order = 3
 Calls = 2
INVARIANTS SameCounts IsCount Orderless RoundTrip ProgramsAgree FileConsistent SumsToOne Bounded Marks
CHECK_DEADLOCK FALSE
