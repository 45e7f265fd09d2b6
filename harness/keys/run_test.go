package keys

import (
	"testing"

	"verif/props"
)

func TestProp(t *testing.T) { props.RunProp(t) }

func TestMain(m *testing.M) { props.RunMain(m) }
