#!/usr/bin/env python
#
# Author: Thamme Gowda [tg (at) isi (dot) edu] 
# Created: 7/19/20

from .core import SeqField, Db, MultipartDb, best_dtype