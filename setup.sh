#!/bin/bash
cd "$(dirname "$0")" && python3-vt -c "
import sys; sys.path.insert(0,'vc')
import nla; print('product lemma schemas proved:', nla.self_check())"
