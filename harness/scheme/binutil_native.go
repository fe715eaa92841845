package scheme

import "github.com/iomz/go-llrp/binutil"

func init() { binutil.VPIntn = vpRand }
