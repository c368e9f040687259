package e1

import "testing"

func TestMain(m *testing.M) { _ = m; Main() }
