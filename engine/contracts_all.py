import c_ints
import c_fields
import c_tower
import c_curves, c_enc, c_pair, c_hash, c_api
