// Writes the models used by the server check in the given directory (absolute path).
#include <bits/stdc++.h>
#include "tdmodels.h"
int main(int, char** a) { make_models(a[1]); make_cfg(a[1]); return 0; }
