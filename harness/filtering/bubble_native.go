package filtering

import (
	"testing"
	"testing/synctest"
)

func init() {
	vpBubbleImpl = func(f func()) {
		synctest.Test(vpT.(*testing.T), func(*testing.T) { f() })
	}
	vpSettleImpl = synctest.Wait
}
