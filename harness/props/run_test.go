package props

import "testing"

func TestProp(t *testing.T) { RunProp(t) }

// TestParallel is the child process of X04.
func TestParallel(t *testing.T) { parChild(t) }

// TestAudit serves tools/audit.sh.
func TestAudit(t *testing.T) { RunAudit(t) }

func TestMain(m *testing.M) { RunMain(m) }
